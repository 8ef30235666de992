// C27: instruction numbers; /repo/src/fm_script_engine/fm_script_engine_instructions.rs and where the decompiler uses them
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::HashMap;
verus! {
//@ include decomp_head.vi
//@ include code_core.vi
/*@ numbers fm_script_engine/fm_script_engine_instructions.rs Instruction
@*/
/// C27: every opcode byte has an entry, and the instruction in it is the one with that number
pub proof fn c27_entry(n: int)
    requires 0 <= n <= 255,
    ensures n < instructionmap_spec().len(),
            instructionmap_spec()[n] matches Some(i) ==> instruction_number(i) == n,
{}
/// C27: every instruction is found at its number
pub proof fn c27_found(i: Instruction)
    ensures 0 <= instruction_number(i) <= 255, instructionmap_spec()[instruction_number(i)] == Some(i),
{}
/// C27: hence numbers tell instructions apart
pub proof fn c27_distinct(i: Instruction, j: Instruction)
    requires instruction_number(i) == instruction_number(j),
    ensures i == j,
{ c27_found(i); c27_found(j); }
/// C27: a step read from script code is the instruction with the number the file has for it ..
pub proof fn c27_step(f: FileV, r: Seq<u8>)
    requires r.len() >= 22, step_in(f, r).is_some(),
    ensures step_in(f, r).unwrap() matches Some(x) ==> instruction_number(x.op) == r[21],
            // .. and no known instruction is left out
            (exists|i: Instruction| instruction_number(i) == r[21]) ==> step_in(f, r).unwrap().is_some(),
{
    c27_entry(r[21] as int);
    if exists|i: Instruction| instruction_number(i) == r[21] {
        let i = choose|i: Instruction| instruction_number(i) == r[21];
        c27_found(i);
    }
}
/// C27: a number that belongs to an instruction
pub open spec fn known(n: int) -> bool { exists|i: Instruction| instruction_number(i) == n }
/// the opcodes of the first k records that are known, in order
pub open spec fn codes(ps: Seq<Seq<u8>>, min: int, k: int) -> Seq<int>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else if ps[k - 1].len() >= min && known(ps[k - 1][21] as int) { codes(ps, min, k - 1).push(ps[k - 1][21] as int) }
    else { codes(ps, min, k - 1) }
}
/// C27: the steps read from script code are exactly the known ones of its records, in their order
pub proof fn c27_steps(f: FileV, ps: Seq<Seq<u8>>, min: int, k: int)
    requires min >= 22, 0 <= k <= ps.len(), steps_upto(f, ps, min, k).is_some(),
    ensures steps_upto(f, ps, min, k).unwrap().len() == codes(ps, min, k).len(),
            forall|j: int| 0 <= j < codes(ps, min, k).len() ==> instruction_number((#[trigger] steps_upto(f, ps, min, k).unwrap()[j]).op) == codes(ps, min, k)[j],
    decreases k
{
    if k > 0 {
        c27_steps(f, ps, min, k - 1);
        if ps[k - 1].len() >= min {
            c27_entry(ps[k - 1][21] as int);
            c27_step(f, ps[k - 1]);
            if let Some(Some(x)) = step_in(f, ps[k - 1]) { assert(known(ps[k - 1][21] as int)); }
        }
    }
}
} // verus!
fn main() {}
