// C19: script parsing; /repo/src/burn_script/parser.rs, fm_script_engine/fm_script_engine_instructions.rs
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@ include peek_core.vi
//@ include script_core.vi
//@ rule macro panic vp_panic()

/// an aborted parse: proved unreachable for well-formed scripts
#[verifier::external_body]
pub fn vp_panic() -> !
    requires false,
{ panic!() }

//@ include script_parse.vi
fn main() {}
}
