// C26: schema lexing; /repo/src/compile/lexer.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include tostring.vi
//@ include str_ext.vi
//@ include lex_core.vi
//@ include schema_tokens.vi
//@ include schema_lex.vi
fn main() {}
}
