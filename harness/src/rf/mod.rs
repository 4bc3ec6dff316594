//! The reference model: lexer, parser, name resolution, values, tree-walking evaluation and natives, written independently of cordy-sys.
pub mod interp;
pub mod lex;
pub mod natives;
pub mod parse;
pub mod value;
