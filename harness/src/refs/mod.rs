pub mod cfg;
pub mod lexer;
pub mod mapping;
pub mod reader;
pub mod rx;
pub mod tslit;
