// C25: script lexing; /repo/src/burn_script/lexer.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include tostring.vi
//@ include str_ext.vi
//@ include lex_core.vi
//@ include script_tokens.vi
//@ include script_lex.vi
fn main() {}
}
