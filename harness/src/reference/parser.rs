//! State, token tests, names and the top level of the reference parser.
use fajt_ast::*;
use fajt_common::io::PeekReader;
use fajt_lexer::error::{Error as LexerError, ErrorKind as LexerErrorKind};
use fajt_lexer::token::{Keyword, Punctuator, Token, TokenValue};
use fajt_lexer::{keyword, punct, Lexer};

/// The ways a production can fail.
pub enum RefError {
    /// Anything that no production recovers from.
    Other,
    /// The same, because a word is reserved.
    Reserved,
    /// The offending token is `...`: the cover grammar may still be an arrow function.
    Dots,
    /// A complete arrow function was read below the level where one is allowed.
    Arrow(Expr),
    /// `CoverInitializedName`: only legal as an assignment pattern.
    Init,
}

pub type R<T> = Result<T, RefError>;

/// Parameters of the grammar ([Yield], [Await], [In], [Return], [Default]) and what the early errors need to know about
/// the surrounding code.
#[derive(Clone, Copy, Default)]
pub struct RefContext {
    pub is_await: bool,
    pub is_yield: bool,
    pub is_in: bool,
    pub is_strict: bool,
    pub is_default: bool,
    pub is_return: bool,
    pub in_method: bool,
    pub super_call_allowed: bool,
    pub static_method_allowed: bool,
}

impl RefContext {
    pub fn with_in(self) -> Self {
        RefContext { is_in: true, ..self }
    }

    pub fn without_in(self) -> Self {
        RefContext { is_in: false, ..self }
    }

    pub fn strict(self) -> Self {
        RefContext { is_strict: true, ..self }
    }

    /// The grammar parameters of an ordinary function: it opens its own [Yield] and [Await], `super` is not visible.
    pub fn function(self, generator: bool, asynchronous: bool) -> Self {
        RefContext { is_yield: generator, is_await: asynchronous, in_method: false, super_call_allowed: false, ..self }
    }
}

pub struct RefParser<'r, 's> {
    pub context: RefContext,
    pub reader: &'r mut PeekReader<Token, Lexer<'s>>,
    pub source_type: SourceType,
}

impl<'r, 's> RefParser<'r, 's> {
    pub fn at(&mut self, context: RefContext) -> RefParser<'_, 's> {
        RefParser { context, reader: self.reader, source_type: self.source_type }
    }

    /// `[+In]`
    pub fn plus_in(&mut self) -> RefParser<'_, 's> {
        let c = self.context.with_in();
        self.at(c)
    }

    // ---- tokens
    pub fn current(&self) -> R<&Token> {
        match self.reader.current() {
            Ok(t) => Ok(t),
            Err(_) => Err(RefError::Other),
        }
    }

    pub fn next(&self) -> Option<&Token> {
        match self.reader.peek() {
            Ok(t) => Some(t),
            Err(_) => None,
        }
    }

    pub fn bump(&mut self) -> R<Token> {
        match self.reader.consume() {
            Ok(t) => Ok(t),
            Err(_) => Err(RefError::Other),
        }
    }

    pub fn is(&self, v: &TokenValue) -> bool {
        match self.reader.current() {
            Ok(t) => t.value == *v,
            Err(_) => false,
        }
    }

    pub fn next_is(&self, v: &TokenValue) -> bool {
        match self.next() {
            Some(t) => t.value == *v,
            None => false,
        }
    }

    pub fn eat(&mut self, v: &TokenValue) -> R<bool> {
        if self.is(v) {
            self.bump()?;
            return Ok(true);
        }
        Ok(false)
    }

    pub fn expect(&mut self, v: &TokenValue) -> R<Token> {
        let t = self.bump()?;
        if t.value == *v {
            Ok(t)
        } else {
            Err(unexpected(&t.value))
        }
    }

    /// The error for a token that no production accepts here.
    pub fn reject<T>(&self) -> R<T> {
        Err(unexpected(&self.current()?.value))
    }

    pub fn rewind(&mut self, t: &Token) -> R<()> {
        match self.reader.rewind_to(t) {
            Ok(()) => Ok(()),
            Err(_) => Err(RefError::Other),
        }
    }

    pub fn at_newline(&self) -> bool {
        match self.reader.current() {
            Ok(t) => t.first_on_line,
            Err(_) => false,
        }
    }

    pub fn next_at_newline(&self) -> bool {
        match self.next() {
            Some(t) => t.first_on_line,
            None => false,
        }
    }

    pub fn at_end(&self) -> bool {
        match self.reader.current() {
            Ok(_) => false,
            Err(e) => *e.kind() == LexerErrorKind::EndOfStream,
        }
    }

    pub fn at_string(&self) -> bool {
        matches!(self.reader.current(), Ok(Token { value: TokenValue::Literal(Literal::String(_)), .. }))
    }

    /// `async` [no LineTerminator here] `function`
    pub fn at_async_function(&self) -> bool {
        self.is(&keyword!("async")) && self.next_is(&keyword!("function")) && !self.next_at_newline()
    }

    // ---- positions
    pub fn start(&self) -> usize {
        match self.reader.current() {
            Ok(t) => t.span.start,
            Err(_) => self.reader.position(),
        }
    }

    /// From the first token of the production to the end of the last consumed token.
    pub fn span(&self, start: usize) -> Span {
        Span::new(start, self.reader.position())
    }

    // ---- names
    /// 12.7.2 and 13.1.1: keywords that are identifiers in the given context.
    pub fn keyword_is_identifier(k: &Keyword, c: RefContext) -> bool {
        match k {
            Keyword::As | Keyword::Async | Keyword::From | Keyword::Get | Keyword::Of | Keyword::Set | Keyword::Target => true,
            Keyword::Await => !c.is_await,
            Keyword::Yield => !c.is_yield && !c.is_strict,
            Keyword::Implements
            | Keyword::Interface
            | Keyword::Let
            | Keyword::Package
            | Keyword::Private
            | Keyword::Protected
            | Keyword::Public
            | Keyword::Static => !c.is_strict,
            _ => false,
        }
    }

    pub fn token_is_identifier(v: &TokenValue, c: RefContext) -> bool {
        match v {
            TokenValue::Identifier(_) => true,
            TokenValue::Keyword(k) => Self::keyword_is_identifier(k, c),
            _ => false,
        }
    }

    pub fn at_identifier(&self) -> bool {
        match self.reader.current() {
            Ok(t) => Self::token_is_identifier(&t.value, self.context),
            Err(_) => false,
        }
    }

    pub fn next_is_identifier(&self) -> bool {
        match self.next() {
            Some(t) => Self::token_is_identifier(&t.value, self.context),
            None => false,
        }
    }

    /// `BindingIdentifier`, `IdentifierReference`, `LabelIdentifier`
    pub fn identifier(&mut self) -> R<Ident> {
        let t = self.bump()?;
        let c = self.context;
        match t.value {
            TokenValue::Identifier(name) => Ok(Ident { span: t.span, name }),
            TokenValue::Keyword(k) if Self::keyword_is_identifier(&k, c) => Ok(Ident { span: t.span, name: k.to_string() }),
            TokenValue::Keyword(_) => Err(RefError::Reserved),
            _ => Err(RefError::Other),
        }
    }

    /// `IdentifierName`: reserved words are allowed.
    pub fn identifier_name(&mut self) -> R<Ident> {
        let t = self.bump()?;
        match t.value {
            TokenValue::Identifier(name) => Ok(Ident { span: t.span, name }),
            TokenValue::Keyword(k) => Ok(Ident { span: t.span, name: k.to_string() }),
            _ => Err(RefError::Other),
        }
    }

    /// `PropertyName`
    pub fn parse_property_name(&mut self) -> R<PropertyName> {
        match &self.current()?.value {
            TokenValue::Literal(_) => match self.bump()?.value {
                TokenValue::Literal(Literal::String(s)) => Ok(PropertyName::String(s)),
                TokenValue::Literal(Literal::Number(n)) => Ok(PropertyName::Number(n)),
                _ => Err(RefError::Other),
            },
            punct!("[") => {
                self.bump()?;
                let e = self.plus_in().parse_assignment_expr()?;
                self.expect(&punct!("]"))?;
                Ok(PropertyName::Computed(Box::new(e)))
            }
            TokenValue::Identifier(_) | TokenValue::Keyword(_) => Ok(PropertyName::Ident(self.identifier_name()?)),
            _ => self.reject(),
        }
    }

    // ---- lists and statement ends
    /// Between the items of a list that ends with `end`.
    pub fn delimiter(&mut self, end: &TokenValue) -> R<()> {
        if self.eat(&punct!(","))? || self.is(end) {
            return Ok(());
        }
        self.reject()
    }

    /// 12.10: a statement ends with `;`, before `}`, at the end of the source or at a line break.
    pub fn semicolon(&mut self) -> R<()> {
        if self.eat(&punct!(";"))? {
            return Ok(());
        }
        if self.at_end() || self.is(&punct!("}")) || self.at_newline() {
            return Ok(());
        }
        self.reject()
    }

    /// Nothing more of this statement can follow (also used after restricted tokens).
    pub fn at_statement_end(&self) -> bool {
        match self.reader.current() {
            Err(_) => true,
            Ok(t) => t.first_on_line || t.value == punct!(";") || t.value == punct!("}"),
        }
    }

    // ---- top level
    /// `Script`, `Module`
    pub fn program(&mut self) -> R<Program> {
        let start = self.start();
        let directives = self.parse_directive_prologue()?;
        // module code is strict mode code
        let strict = match self.source_type {
            SourceType::Module => true,
            SourceType::Script => super::semantics::contains_strict(&directives),
        };
        let context = if strict { self.context.strict() } else { self.context };
        let mut body = Vec::new();
        while !self.at_end() {
            body.push(self.at(context).parse_declaration_or_statement()?);
        }
        let list = StmtList { span: self.span(start), directives, body };
        Ok(match self.source_type {
            SourceType::Module => Program::Module(list),
            SourceType::Script => Program::Script(list),
        })
    }

    /// `Expression[+In]` on its own
    pub fn program_expr(&mut self) -> R<Expr> {
        self.at(RefContext::default().with_in()).parse_expr()
    }

    /// `StatementListItem` on its own
    pub fn program_stmt(&mut self) -> R<Stmt> {
        self.parse_declaration_or_statement()
    }

    /// 11.2.1: the longest sequence of expression statements that consist of a string literal alone.
    pub fn parse_directive_prologue(&mut self) -> R<Vec<LitString>> {
        let mut directives = Vec::new();
        while self.at_string() {
            let first = self.current()?.clone();
            let stmt = self.parse_declaration_or_statement()?;
            match directive(stmt) {
                Some(s) => directives.push(s),
                None => {
                    self.rewind(&first)?;
                    return Ok(directives);
                }
            }
        }
        Ok(directives)
    }
}

/// The string of an expression statement that is nothing but a string literal.
fn directive(stmt: Stmt) -> Option<LitString> {
    if let Stmt::Expr(StmtExpr { expr, .. }) = stmt {
        if let Expr::Literal(ExprLiteral { literal: Literal::String(s), .. }) = *expr {
            return Some(s);
        }
    }
    None
}

pub fn unexpected(v: &TokenValue) -> RefError {
    match v {
        TokenValue::Punctuator(Punctuator::TripleDot) => RefError::Dots,
        _ => RefError::Other,
    }
}

impl From<LexerError> for RefError {
    fn from(_: LexerError) -> Self {
        RefError::Other
    }
}
