//! The sources of /repo which the contracts were proved for, used only to find
//! and show a failing input once the verifier has rejected an obligation.
#![allow(dead_code, unused, mismatched_lifetime_syntaxes)]
pub mod ast;
pub mod environment;
pub mod error;
pub mod parser;
pub mod resolver;
pub mod scanner;
pub mod source_loc;
pub mod token;
pub mod value;
