//! ECMA-262 clause 14 (statements and declarations) and 16.2 (modules).
use super::parser::*;
use fajt_ast::*;
use fajt_lexer::token::{Keyword, TokenValue};
use fajt_lexer::{keyword, punct};

impl<'r, 's> RefParser<'r, 's> {
    // ---- 14.1
    /// `StatementListItem` (and `ModuleItem`)
    pub fn parse_declaration_or_statement(&mut self) -> R<Stmt> {
        match self.declaration()? {
            Some(d) => Ok(d),
            None => self.parse_stmt(),
        }
    }

    /// `Declaration`, `ImportDeclaration` and `ExportDeclaration`, when the next tokens start one.
    fn declaration(&mut self) -> R<Option<Stmt>> {
        let k = match &self.current()?.value {
            TokenValue::Keyword(k) => k.clone(),
            _ => return Ok(None),
        };
        let script = matches!(self.source_type, SourceType::Script);
        let strict = self.context.strict();
        let d = match k {
            Keyword::Function => self.parse_function_declaration()?,
            Keyword::Async if self.at_async_function() => self.parse_async_function_declaration()?,
            Keyword::Class => self.at(strict).parse_class_decl()?,
            Keyword::Const => self.parse_variable_stmt(VariableKind::Const)?,
            Keyword::Let if self.next_is_binding() => self.parse_variable_stmt(VariableKind::Let)?,
            // import() and import.meta are expressions
            Keyword::Import if !(self.next_is(&punct!("(")) || self.next_is(&punct!("."))) => {
                if script {
                    return Err(RefError::Other);
                }
                self.parse_import_declaration()?
            }
            Keyword::Export => {
                if script {
                    return Err(RefError::Other);
                }
                self.parse_export_declaration()?
            }
            _ => return Ok(None),
        };
        Ok(Some(d))
    }

    /// `Statement`
    pub fn parse_stmt(&mut self) -> R<Stmt> {
        match &self.current()?.value {
            punct!(";") => {
                let t = self.bump()?;
                return Ok(Stmt::Empty(StmtEmpty { span: t.span }));
            }
            punct!("{") => return Ok(Stmt::Block(self.block()?)),
            TokenValue::Keyword(k) => match k {
                Keyword::Var => return self.parse_variable_stmt(VariableKind::Var),
                Keyword::If => return self.if_stmt(),
                Keyword::Break => return self.break_stmt(),
                Keyword::Continue => return self.continue_stmt(),
                Keyword::Return => return self.return_stmt(),
                Keyword::With => return self.with_stmt(),
                Keyword::Throw => return self.throw_stmt(),
                Keyword::Try => return self.try_stmt(),
                Keyword::Debugger => return self.debugger_stmt(),
                Keyword::Do => return self.do_while_stmt(),
                Keyword::While => return self.while_stmt(),
                Keyword::For => return self.for_stmt(),
                Keyword::Switch => return self.switch_stmt(),
                _ => {}
            },
            _ => {}
        }
        if self.at_identifier() && self.next_is(&punct!(":")) {
            return self.labelled_stmt();
        }
        if self.expression_statement_excluded()? {
            return self.reject();
        }
        self.expr_stmt()
    }

    /// The lookahead restriction of `ExpressionStatement` (`{` is a block already).
    fn expression_statement_excluded(&self) -> R<bool> {
        Ok(match &self.current()?.value {
            TokenValue::Keyword(Keyword::Function) | TokenValue::Keyword(Keyword::Class) => true,
            TokenValue::Keyword(Keyword::Async) => self.next_is(&keyword!("function")) && !self.next_at_newline(),
            TokenValue::Keyword(Keyword::Let) => self.next_is(&punct!("[")),
            _ => false,
        })
    }

    fn any_expr(&mut self) -> R<Expr> {
        self.plus_in().parse_expr()
    }

    /// `( Expression[+In] )`
    fn head_expr(&mut self) -> R<Expr> {
        self.expect(&punct!("("))?;
        let e = self.any_expr()?;
        self.expect(&punct!(")"))?;
        Ok(e)
    }

    fn boxed_stmt(&mut self) -> R<Box<Stmt>> {
        Ok(Box::new(self.parse_stmt()?))
    }

    // ---- 14.2
    pub fn block(&mut self) -> R<StmtBlock> {
        let start = self.start();
        self.expect(&punct!("{"))?;
        let mut statements = Vec::new();
        while !self.eat(&punct!("}"))? {
            statements.push(self.parse_declaration_or_statement()?);
        }
        Ok(StmtBlock { span: self.span(start), statements })
    }

    // ---- 14.3
    /// `let` followed by something that can be declared
    fn next_is_binding(&self) -> bool {
        self.next_is(&punct!("[")) || self.next_is(&punct!("{")) || self.next_is_identifier()
    }

    /// `VariableStatement` and `LexicalDeclaration`, at the keyword
    pub fn parse_variable_stmt(&mut self, kind: VariableKind) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let declarations = self.plus_in().variable_declarations()?;
        self.semicolon()?;
        Ok(Stmt::Variable(StmtVariable { span: self.span(start), kind, declarations }))
    }

    fn variable_declarations(&mut self) -> R<Vec<VariableDeclaration>> {
        let mut list = Vec::new();
        loop {
            list.push(self.variable_declaration()?);
            if !self.eat(&punct!(","))? {
                return Ok(list);
            }
        }
    }

    /// A pattern needs an initializer.
    fn variable_declaration(&mut self) -> R<VariableDeclaration> {
        let start = self.start();
        let pattern = self.parse_binding_pattern()?;
        let is_name = matches!(pattern, BindingPattern::Ident(_));
        let initializer = if self.eat(&punct!("="))? {
            Some(self.parse_assignment_expr()?)
        } else if is_name {
            None
        } else {
            return Err(RefError::Other);
        };
        Ok(VariableDeclaration { span: self.span(start), pattern, initializer })
    }

    // ---- 14.5
    fn expr_stmt(&mut self) -> R<Stmt> {
        let start = self.start();
        let e = self.any_expr()?;
        self.semicolon()?;
        Ok(Stmt::Expr(StmtExpr { span: self.span(start), expr: Box::new(e) }))
    }

    // ---- 14.6
    fn if_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let condition = Box::new(self.head_expr()?);
        let consequent = self.boxed_stmt()?;
        let alternate = if self.eat(&keyword!("else"))? { Some(self.boxed_stmt()?) } else { None };
        Ok(Stmt::If(StmtIf { span: self.span(start), condition, consequent, alternate }))
    }

    // ---- 14.7
    fn do_while_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let body = self.boxed_stmt()?;
        self.expect(&keyword!("while"))?;
        let test = Box::new(self.head_expr()?);
        // 12.10.1: a semicolon can always be inserted here
        self.eat(&punct!(";"))?;
        Ok(Stmt::DoWhile(StmtDoWhile { span: self.span(start), body, test }))
    }

    fn while_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let test = Box::new(self.head_expr()?);
        let body = self.boxed_stmt()?;
        Ok(Stmt::While(StmtWhile { span: self.span(start), test, body }))
    }

    fn for_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let asynchronous = self.context.is_await && self.eat(&keyword!("await"))?;
        self.expect(&punct!("("))?;
        let first = self.current()?.clone();
        if let Ok(init) = self.for_init() {
            if self.eat(&punct!(";"))? {
                if asynchronous {
                    return Err(RefError::Other);
                }
                return self.for_rest(start, init);
            }
        }
        self.rewind(&first)?;
        let left = self.for_declaration()?;
        match &self.current()?.value {
            TokenValue::Keyword(Keyword::Of) => {
                self.bump()?;
                let right = self.plus_in().parse_assignment_expr()?;
                self.expect(&punct!(")"))?;
                let body = self.boxed_stmt()?;
                Ok(Stmt::ForOf(StmtForOf { span: self.span(start), left, right: Box::new(right), body, asynchronous }))
            }
            TokenValue::Keyword(Keyword::In) if !asynchronous => {
                self.bump()?;
                let right = self.any_expr()?;
                self.expect(&punct!(")"))?;
                let body = self.boxed_stmt()?;
                Ok(Stmt::ForIn(StmtForIn { span: self.span(start), left, right: Box::new(right), body }))
            }
            _ => self.reject(),
        }
    }

    /// After the first `;`
    fn for_rest(&mut self, start: usize, init: Option<ForInit>) -> R<Stmt> {
        let test = if self.is(&punct!(";")) { None } else { Some(Box::new(self.any_expr()?)) };
        self.expect(&punct!(";"))?;
        let update = if self.is(&punct!(")")) { None } else { Some(Box::new(self.any_expr()?)) };
        self.expect(&punct!(")"))?;
        let body = self.boxed_stmt()?;
        Ok(Stmt::For(StmtFor { span: self.span(start), init, test, update, body }))
    }

    fn for_init(&mut self) -> R<Option<ForInit>> {
        if self.is(&punct!(";")) {
            return Ok(None);
        }
        let start = self.start();
        let inner = self.context.without_in();
        Ok(Some(match self.for_kind()? {
            Some(kind) => {
                let declarations = self.at(inner).variable_declarations()?;
                ForInit::Declaration(StmtVariable { span: self.span(start), kind, declarations })
            }
            None => ForInit::Expr(Box::new(self.at(inner).parse_expr()?)),
        }))
    }

    fn for_declaration(&mut self) -> R<ForDeclaration> {
        let start = self.start();
        if let Some(kind) = self.for_kind()? {
            let binding = self.parse_binding_pattern()?;
            return Ok(ForDeclaration::Declaration(ForBinding { span: self.span(start), kind, binding }));
        }
        if self.is(&punct!("[")) || self.is(&punct!("{")) {
            return Ok(ForDeclaration::AssignmentPattern(self.parse_assignment_pattern()?));
        }
        let e = self.parse_left_hand_side_expr()?;
        self.must_be_simple_target(&e)?;
        Ok(ForDeclaration::Expr(Box::new(e)))
    }

    /// `var`, `let` or `const` in the head of a loop
    fn for_kind(&mut self) -> R<Option<VariableKind>> {
        let kind = match &self.current()?.value {
            TokenValue::Keyword(Keyword::Var) => VariableKind::Var,
            TokenValue::Keyword(Keyword::Const) => VariableKind::Const,
            TokenValue::Keyword(Keyword::Let) if self.next_is_binding() => VariableKind::Let,
            _ => return Ok(None),
        };
        self.bump()?;
        Ok(Some(kind))
    }

    // ---- 14.8, 14.9
    fn jump_label(&mut self) -> R<Option<Ident>> {
        let label = if self.at_statement_end() { None } else { Some(self.identifier()?) };
        self.semicolon()?;
        Ok(label)
    }

    fn continue_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let label = self.jump_label()?;
        Ok(Stmt::Continue(StmtContinue { span: self.span(start), label }))
    }

    fn break_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let label = self.jump_label()?;
        Ok(Stmt::Break(StmtBreak { span: self.span(start), label }))
    }

    // ---- 14.10
    fn return_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        if !self.context.is_return {
            return Err(RefError::Other);
        }
        let argument = if self.at_statement_end() { None } else { Some(Box::new(self.any_expr()?)) };
        self.semicolon()?;
        Ok(Stmt::Return(StmtReturn { span: self.span(start), argument }))
    }

    // ---- 14.11
    fn with_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let object = Box::new(self.head_expr()?);
        let body = self.boxed_stmt()?;
        Ok(Stmt::With(StmtWith { span: self.span(start), object, body }))
    }

    // ---- 14.12
    fn switch_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let discriminant = Box::new(self.head_expr()?);
        self.expect(&punct!("{"))?;
        let mut cases = Vec::new();
        while !self.is(&punct!("}")) {
            cases.push(self.case_clause()?);
        }
        self.bump()?;
        Ok(Stmt::Switch(StmtSwitch { span: self.span(start), discriminant, cases }))
    }

    fn case_clause(&mut self) -> R<SwitchCase> {
        let start = self.start();
        let test = if self.eat(&keyword!("case"))? {
            Some(self.any_expr()?)
        } else {
            self.expect(&keyword!("default"))?;
            None
        };
        self.expect(&punct!(":"))?;
        let mut consequent = Vec::new();
        while !(self.is(&punct!("}")) || self.is(&keyword!("case")) || self.is(&keyword!("default"))) {
            consequent.push(self.parse_declaration_or_statement()?);
        }
        Ok(SwitchCase { span: self.span(start), test, consequent })
    }

    // ---- 14.13
    fn labelled_stmt(&mut self) -> R<Stmt> {
        let start = self.start();
        let label = self.identifier()?;
        self.expect(&punct!(":"))?;
        let body = self.boxed_stmt()?;
        Ok(Stmt::Labeled(StmtLabeled { span: self.span(start), label, body }))
    }

    // ---- 14.14
    fn throw_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        // no LineTerminator, and the expression is not optional
        if self.at_newline() {
            return Err(RefError::Other);
        }
        let argument = Box::new(self.any_expr()?);
        self.semicolon()?;
        Ok(Stmt::Throw(StmtThrow { span: self.span(start), argument }))
    }

    // ---- 14.15
    fn try_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        let block = self.block()?;
        let handler = if self.is(&keyword!("catch")) { Some(Box::new(self.catch()?)) } else { None };
        let finalizer = if self.eat(&keyword!("finally"))? { Some(self.block()?) } else { None };
        if handler.is_none() && finalizer.is_none() {
            return Err(RefError::Other);
        }
        Ok(Stmt::Try(StmtTry { span: self.span(start), block, handler, finalizer }))
    }

    fn catch(&mut self) -> R<CatchClause> {
        let start = self.bump()?.span.start;
        let parameter = if self.eat(&punct!("("))? {
            let p = self.parse_binding_pattern()?;
            self.expect(&punct!(")"))?;
            Some(p)
        } else {
            None
        };
        let body = self.block()?;
        Ok(CatchClause { span: self.span(start), parameter, body })
    }

    // ---- 14.16
    fn debugger_stmt(&mut self) -> R<Stmt> {
        let start = self.bump()?.span.start;
        self.semicolon()?;
        Ok(Stmt::Debugger(StmtDebugger { span: self.span(start) }))
    }

    // ---- 16.2.2
    pub fn parse_import_declaration(&mut self) -> R<Stmt> {
        let start = self.start();
        self.expect(&keyword!("import"))?;
        let mut default_binding = None;
        let mut namespace_binding = None;
        let mut named_imports = None;
        if !self.at_string() {
            if self.at_identifier() {
                default_binding = Some(self.identifier()?);
            }
            if default_binding.is_none() || self.eat(&punct!(","))? {
                if self.is(&punct!("*")) {
                    self.bump()?;
                    self.expect(&keyword!("as"))?;
                    namespace_binding = Some(self.identifier()?);
                } else if self.is(&punct!("{")) {
                    named_imports = Some(self.named_imports()?);
                } else {
                    return self.reject();
                }
            }
            self.expect(&keyword!("from"))?;
        }
        let from = self.module_specifier()?;
        self.semicolon()?;
        Ok(Stmt::ImportDecl(DeclImport { span: self.span(start), default_binding, namespace_binding, named_imports, from }))
    }

    fn named_imports(&mut self) -> R<Vec<NamedImport>> {
        self.bump()?;
        let mut list = Vec::new();
        while !self.eat(&punct!("}"))? {
            let start = self.start();
            // ImportSpecifier : ImportedBinding | ModuleExportName as ImportedBinding
            let (name, alias) = if self.next_is(&keyword!("as")) {
                let name = self.identifier_name()?;
                self.bump()?;
                (name, Some(self.identifier()?))
            } else {
                (self.identifier()?, None)
            };
            list.push(NamedImport { span: self.span(start), name, alias });
            self.delimiter(&punct!("}"))?;
        }
        Ok(list)
    }

    fn module_specifier(&mut self) -> R<LitString> {
        match self.bump()?.value {
            TokenValue::Literal(Literal::String(s)) => Ok(s),
            v => Err(unexpected(&v)),
        }
    }

    // ---- 16.2.3
    pub fn parse_export_declaration(&mut self) -> R<Stmt> {
        let start = self.start();
        self.expect(&keyword!("export"))?;
        let export = match &self.current()?.value {
            punct!("{") => {
                let named_exports = self.named_exports()?;
                let from = if self.eat(&keyword!("from"))? { Some(self.module_specifier()?) } else { None };
                self.semicolon()?;
                DeclExport::Named(ExportNamed { span: self.span(start), named_exports, from })
            }
            punct!("*") => {
                self.bump()?;
                let alias = if self.eat(&keyword!("as"))? { Some(self.identifier_name()?) } else { None };
                self.expect(&keyword!("from"))?;
                let from = self.module_specifier()?;
                self.semicolon()?;
                DeclExport::Namespace(ExportNamespace { span: self.span(start), alias, from })
            }
            TokenValue::Keyword(Keyword::Default) => {
                self.bump()?;
                let default = RefContext { is_default: true, ..self.context };
                if self.is(&keyword!("class")) || self.is(&keyword!("function")) || self.at_async_function() {
                    match self.at(default).declaration()? {
                        Some(d) => DeclExport::DefaultDecl(ExportDefaultDecl { span: self.span(start), decl: Box::new(d) }),
                        None => return Err(RefError::Other),
                    }
                } else {
                    let e = self.plus_in().parse_assignment_expr()?;
                    self.semicolon()?;
                    DeclExport::DefaultExpr(ExportDefaultExpr { span: self.span(start), expr: Box::new(e) })
                }
            }
            TokenValue::Keyword(Keyword::Var) => {
                let d = self.parse_variable_stmt(VariableKind::Var)?;
                DeclExport::Decl(ExportDecl { span: self.span(start), decl: Box::new(d) })
            }
            TokenValue::Keyword(Keyword::Let | Keyword::Const | Keyword::Function | Keyword::Class | Keyword::Async) => {
                if self.is(&keyword!("async")) && !self.at_async_function() {
                    return Err(RefError::Other);
                }
                match self.declaration()? {
                    Some(d) => DeclExport::Decl(ExportDecl { span: self.span(start), decl: Box::new(d) }),
                    None => return Err(RefError::Other),
                }
            }
            _ => return self.reject(),
        };
        Ok(Stmt::ExportDecl(export))
    }

    fn named_exports(&mut self) -> R<Vec<NamedExport>> {
        self.bump()?;
        let mut list = Vec::new();
        while !self.eat(&punct!("}"))? {
            let start = self.start();
            let local = self.identifier_name()?;
            let (name, alias_of) = if self.eat(&keyword!("as"))? {
                (self.identifier_name()?, Some(local))
            } else {
                (local, None)
            };
            list.push(NamedExport { span: self.span(start), name, alias_of });
            self.delimiter(&punct!("}"))?;
        }
        Ok(list)
    }
}
