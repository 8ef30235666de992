// C20: program parsing; /repo/src/compile/parser.rs
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::{HashMap, BTreeMap};
verus! {
//@ include tostring.vi
//@ include peek_core.vi
//@ include script_types.vi
//@ include prog_types.vi
//@ include prog_core.vi
/// the texts that are blocks of scripts, and the scripts they compile to (C28)
pub uninterp spec fn is_block(text: Seq<char>) -> bool;
pub uninterp spec fn scripts_in(text: Seq<char>) -> Seq<ScriptView>;
pub struct BurnScriptCompiler {}
impl BurnScriptCompiler {
    /// proved in C28
    #[verifier::external_body]
    pub fn compile_burn_script(code: &str) -> (r: Vec<FMComponentScript>)
        requires is_block(code@),
        ensures script_views(r@) == scripts_in(code@),
    { unimplemented!() }
}
//@ include prog_parse.vi
fn main() {}
}
