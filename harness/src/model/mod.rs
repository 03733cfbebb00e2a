//! Reference models: small, slow and written from the documentation of each operator.
pub mod peg;
pub mod lex;
