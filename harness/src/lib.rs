//! Roots of the analysed program: everything the analysers look at is reachable from here.
//! Nothing in this crate is ever executed.
#![allow(dead_code)]

use fajt_ast::traverse::{TraceVisitor, Traverse};
use fajt_ast::{Expr, Program, SourceType, Stmt};
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_lexer::error::Error as LexerError;
use fajt_lexer::token::Token;
use fajt_lexer::Lexer;
use fajt_parser::error::emitter::ErrorEmitter;
use fajt_parser::error::{Error, Result};

#[cfg(feature = "cli")]
#[path = "../../../repo/src/main.rs"]
mod cli;

pub mod reference;

#[cfg(feature = "serial")]
pub mod serial;

pub fn root_parse_program(source: &str, t: SourceType) -> Result<Program> {
    fajt_parser::parse::<Program>(source, t)
}

pub fn root_parse_stmt(source: &str, t: SourceType) -> Result<Stmt> {
    fajt_parser::parse::<Stmt>(source, t)
}

pub fn root_parse_expr(source: &str, t: SourceType) -> Result<Expr> {
    fajt_parser::parse::<Expr>(source, t)
}

pub fn root_parse_script(source: &str) -> Result<Program> {
    fajt_parser::parse_script(source)
}

pub fn root_parse_module(source: &str) -> Result<Program> {
    fajt_parser::parse_module(source)
}

pub fn root_lexer_read(source: &str) -> std::result::Result<Token, LexerError> {
    let mut lexer = Lexer::new(source)?;
    lexer.read()
}

pub fn root_lexer_read_all(source: &str) -> std::result::Result<Vec<Token>, LexerError> {
    let mut lexer = Lexer::new(source)?;
    lexer.read_all()
}

pub fn root_codegen_program(p: &mut Program, ctx: GeneratorContext) -> String {
    generate_code(p, ctx)
}

pub fn root_codegen_stmt(p: &mut Stmt, ctx: GeneratorContext) -> String {
    generate_code(p, ctx)
}

pub fn root_codegen_expr(p: &mut Expr, ctx: GeneratorContext) -> String {
    generate_code(p, ctx)
}

pub fn root_program_span(p: &Program) -> &fajt_ast::Span {
    p.span()
}

pub fn root_trace(p: &mut Program) -> TraceVisitor {
    let mut v = TraceVisitor::new();
    p.traverse(&mut v);
    v
}

/// The methods that every visitor inherits.
pub struct Defaults;

impl fajt_ast::traverse::Visitor for Defaults {}

pub fn root_defaults(p: &mut Program) {
    p.traverse(&mut Defaults);
}

pub fn root_emit(name: &str, source: &str, out: &mut Vec<u8>, error: &Error) -> std::io::Result<()> {
    ErrorEmitter::new(name, source, out).emit_error(error)
}

pub fn root_display_error(error: &Error, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    std::fmt::Display::fmt(error, f)
}

// Spelling tables: both directions of every enumeration with a textual form.
macro_rules! spelling_roots {
    ($($from:ident $ty:path),* $(,)?) => {
        $(pub fn $from(s: &str) -> Option<$ty> {
            <$ty as std::str::FromStr>::from_str(s).ok()
        })*
    };
}

spelling_roots!(
    root_spelling_keyword fajt_lexer::token::Keyword,
    root_spelling_punctuator fajt_lexer::token::Punctuator,
    root_spelling_variable fajt_ast::VariableKind,
    root_spelling_binary fajt_ast::BinaryOperator,
    root_spelling_logical fajt_ast::LogicalOperator,
    root_spelling_unary fajt_ast::UnaryOperator,
    root_spelling_update fajt_ast::UpdateOperator,
    root_spelling_assignment fajt_ast::AssignmentOperator,
);

pub fn root_keyword_reserved(k: &fajt_lexer::token::Keyword, c: fajt_lexer::token::KeywordContext) -> bool {
    k.is_allowed_as_identifier(c)
}

// The reference descriptions
#[cfg(feature = "reference")]
pub fn ref_program(p: &mut reference::parser::RefParser) -> reference::parser::R<Program> {
    p.program()
}

#[cfg(feature = "reference")]
pub fn ref_stmt(p: &mut reference::parser::RefParser) -> reference::parser::R<Stmt> {
    p.program_stmt()
}

#[cfg(feature = "reference")]
pub fn ref_expr(p: &mut reference::parser::RefParser) -> reference::parser::R<Expr> {
    p.program_expr()
}

#[cfg(feature = "reflex")]
pub fn ref_lexer_read(l: &mut reference::lexer::RefLexer) -> reference::lexer::L<Token> {
    l.read()
}

#[cfg(feature = "serial")]
pub fn root_write(p: &Program, t: &fajt_lexer::token::Token, e: &fajt_lexer::error::Error) -> [std::result::Result<(), serial::Bad>; 3] {
    [serial::write(p), serial::write(t), serial::write(e)]
}

#[cfg(feature = "serial")]
pub fn root_read() -> std::result::Result<(Program, fajt_lexer::token::Token, fajt_lexer::error::Error), serial::Bad> {
    Ok((serial::read()?, serial::read()?, serial::read()?))
}
