//! ECMA-262 clause 15: functions, methods, arrow functions and classes.
use super::parser::*;
use super::semantics::*;
use fajt_ast::*;
use fajt_lexer::token::{Keyword, TokenValue};
use fajt_lexer::{keyword, punct};

impl<'r, 's> RefParser<'r, 's> {
    // ---- 15.2, 15.5, 15.6, 15.8
    /// Everything after `function`/`async function` of a declaration. The name belongs to the surrounding code.
    fn function_declaration(&mut self, start: usize, asynchronous: bool) -> R<Stmt> {
        let generator = self.eat(&punct!("*"))?;
        let identifier = if self.context.is_default && self.is(&punct!("(")) {
            Ident::dummy(self.start())
        } else {
            self.identifier()?
        };
        let inner = self.context.function(generator, asynchronous);
        let parameters = self.at(inner).parse_formal_parameters()?;
        let body = self.at(inner).parse_function_body()?;
        let span = self.span(start);
        Ok(Stmt::FunctionDecl(DeclFunction { span, asynchronous, generator, identifier, parameters, body }))
    }

    pub fn parse_function_declaration(&mut self) -> R<Stmt> {
        let start = self.start();
        self.expect(&keyword!("function"))?;
        self.function_declaration(start, false)
    }

    pub fn parse_async_function_declaration(&mut self) -> R<Stmt> {
        let start = self.start();
        self.expect(&keyword!("async"))?;
        self.expect(&keyword!("function"))?;
        self.function_declaration(start, true)
    }

    /// Everything after `function`/`async function` of an expression. The name belongs to the function.
    fn function_expression(&mut self, start: usize, asynchronous: bool) -> R<Expr> {
        let generator = self.eat(&punct!("*"))?;
        let inner = self.context.function(generator, asynchronous);
        let mut p = self.at(inner);
        let identifier = if p.at_identifier() { Some(p.identifier()?) } else { None };
        let parameters = p.parse_formal_parameters()?;
        let body = p.parse_function_body()?;
        let span = self.span(start);
        Ok(Expr::Function(ExprFunction { span, asynchronous, generator, identifier, parameters, body }))
    }

    pub fn parse_function_expr(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&keyword!("function"))?;
        self.function_expression(start, false)
    }

    pub fn parse_async_function_expr(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&keyword!("async"))?;
        self.expect(&keyword!("function"))?;
        self.function_expression(start, true)
    }

    // ---- 15.1
    /// `( FormalParameters )`
    pub fn parse_formal_parameters(&mut self) -> R<FormalParameters> {
        let start = self.start();
        self.expect(&punct!("("))?;
        let mut bindings = Vec::new();
        let mut rest = None;
        while !self.eat(&punct!(")"))? {
            if self.eat(&punct!("..."))? {
                rest = Some(Box::new(self.parse_binding_pattern()?));
                self.expect(&punct!(")"))?;
                break;
            }
            bindings.push(self.parse_binding_element()?);
            self.delimiter(&punct!(")"))?;
        }
        Ok(FormalParameters { span: self.span(start), bindings, rest })
    }

    /// `{ FunctionBody }`
    pub fn parse_function_body(&mut self) -> R<Body> {
        let start = self.start();
        self.expect(&punct!("{"))?;
        let directives = self.parse_directive_prologue()?;
        let is_strict = self.context.is_strict || contains_strict(&directives);
        let inner = RefContext { is_strict, is_default: false, is_return: true, ..self.context };
        let mut statements = Vec::new();
        while !self.eat(&punct!("}"))? {
            statements.push(self.at(inner).parse_declaration_or_statement()?);
        }
        Ok(Body { span: self.span(start), directives, statements })
    }

    // ---- 15.3, 15.9
    pub fn parse_arrow_function_expr(&mut self) -> R<Expr> {
        let start = self.start();
        self.arrow_function(start, false)
    }

    /// `async` [no LineTerminator here] parameters `=>` body
    pub fn parse_async_arrow_function_expr(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&keyword!("async"))?;
        if self.at_newline() {
            return self.reject();
        }
        self.arrow_function(start, true)
    }

    fn arrow_function(&mut self, start: usize, asynchronous: bool) -> R<Expr> {
        let binding_parameter = self.at_identifier();
        let parameters = if binding_parameter {
            let i = self.identifier()?;
            let element = BindingElement { span: i.span.clone(), pattern: BindingPattern::Ident(i.clone()), initializer: None };
            FormalParameters { span: i.span, bindings: vec![element], rest: None }
        } else {
            self.parse_formal_parameters()?
        };
        let arrow = self.expect(&punct!("=>"))?;
        if arrow.first_on_line {
            return Err(RefError::Other);
        }
        let outer = self.context;
        // `super` is visible through an arrow function, [Yield], [Return] and [Default] are not
        let inner = RefContext { is_await: asynchronous, is_yield: false, is_default: false, is_return: false, ..outer };
        let mut p = self.at(inner);
        let body = if p.is(&punct!("{")) {
            ArrowFunctionBody::Body(p.parse_function_body()?)
        } else {
            ArrowFunctionBody::Expr(Box::new(p.parse_assignment_expr()?))
        };
        let span = self.span(start);
        Ok(Expr::ArrowFunction(ExprArrowFunction { span, asynchronous, binding_parameter, parameters, body }))
    }

    // ---- 15.4
    pub fn parse_method_definition(&mut self) -> R<MethodDefinition> {
        let c = self.context;
        let is_static = c.static_method_allowed && !self.next_is(&punct!("(")) && self.eat(&keyword!("static"))?;
        let start = self.start();
        let named = self.next_is(&punct!("("));
        match &self.current()?.value {
            punct!("*") => {
                self.bump()?;
                let name = self.parse_property_name()?;
                let inner = RefContext { is_yield: true, is_await: false, ..c };
                self.at(inner).method(start, is_static, name, MethodKind::Method)
            }
            TokenValue::Keyword(Keyword::Async) if !named && !self.next_at_newline() => {
                self.bump()?;
                let is_yield = self.eat(&punct!("*"))?;
                let name = self.parse_property_name()?;
                let inner = RefContext { is_yield, is_await: true, ..c };
                self.at(inner).method(start, is_static, name, MethodKind::Method)
            }
            v => {
                let kind = match v {
                    TokenValue::Keyword(Keyword::Get) if !named => MethodKind::Get,
                    TokenValue::Keyword(Keyword::Set) if !named => MethodKind::Set,
                    _ => MethodKind::Method,
                };
                if !matches!(kind, MethodKind::Method) {
                    self.bump()?;
                }
                let name = self.parse_property_name()?;
                let inner = RefContext { is_await: false, ..c };
                self.at(inner).method(start, is_static, name, kind)
            }
        }
    }

    /// Parameters and body; the parameters cannot contain `yield` expressions.
    pub fn method(&mut self, start: usize, is_static: bool, name: PropertyName, kind: MethodKind) -> R<MethodDefinition> {
        let c = self.context;
        let parameters = self.at(RefContext { is_yield: false, ..c }).parse_formal_parameters()?;
        let body = self.parse_function_body()?;
        match kind {
            MethodKind::Get => early_errors_getter(&parameters)?,
            MethodKind::Set => early_errors_setter(&parameters, &body.directives)?,
            MethodKind::Method => early_errors_method(&parameters, &body.directives)?,
        }
        Ok(MethodDefinition {
            span: self.span(start),
            name,
            kind,
            parameters,
            body,
            generator: c.is_yield,
            asynchronous: c.is_await,
            is_static,
        })
    }

    // ---- 15.7
    pub fn parse_class_decl(&mut self) -> R<Stmt> {
        let start = self.start();
        self.expect(&keyword!("class"))?;
        let identifier = if self.context.is_default && self.is(&punct!("{")) {
            Ident::dummy(self.start())
        } else {
            self.identifier()?
        };
        let (super_class, body) = self.class_tail()?;
        Ok(Stmt::ClassDecl(DeclClass { span: self.span(start), identifier, super_class, body }))
    }

    pub fn parse_class_expr(&mut self) -> R<Expr> {
        let start = self.start();
        self.expect(&keyword!("class"))?;
        let identifier = if self.at_identifier() { Some(self.identifier()?) } else { None };
        let (super_class, body) = self.class_tail()?;
        Ok(Expr::Class(ExprClass { span: self.span(start), identifier, super_class, body }))
    }

    fn class_tail(&mut self) -> R<(Option<Box<Expr>>, Vec<ClassElement>)> {
        let super_class =
            if self.eat(&keyword!("extends"))? { Some(Box::new(self.parse_left_hand_side_expr()?)) } else { None };
        self.expect(&punct!("{"))?;
        let mut body = Vec::new();
        while !self.eat(&punct!("}"))? {
            if self.eat(&punct!(";"))? {
                continue;
            }
            // super() is for the constructor of a derived class
            let super_call_allowed = super_class.is_some() && self.at_constructor();
            let inner = RefContext { in_method: true, static_method_allowed: true, super_call_allowed, ..self.context };
            body.push(ClassElement::Method(self.at(inner).parse_method_definition()?));
        }
        Ok((super_class, body))
    }

    fn at_constructor(&self) -> bool {
        match self.reader.current() {
            Ok(t) => match &t.value {
                TokenValue::Identifier(name) => name == "constructor",
                TokenValue::Literal(Literal::String(s)) => s.value == "constructor",
                _ => false,
            },
            Err(_) => false,
        }
    }
}
