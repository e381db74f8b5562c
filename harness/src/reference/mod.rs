//! Reference descriptions written from ECMA-262.  They are compiled, dumped and analysed together with the project, but
//! never executed.
#[cfg(feature = "reference")]
pub mod expr;
#[cfg(feature = "reference")]
pub mod func;
#[cfg(feature = "reflex")]
pub mod lexer;
#[cfg(feature = "reference")]
pub mod parser;
#[cfg(feature = "reference")]
pub mod pattern;
#[cfg(feature = "reference")]
pub mod semantics;
#[cfg(feature = "reference")]
pub mod stmt;
