// C08: what the assembler emits, the chunk reader reads back; /repo/src/compile/assembler.rs, chunk.rs
use vstd::prelude::*;
use vstd::utf8::*;
use std::collections::HashMap;
verus! {
//@ include asm_core.vi

/// C08 on the two real functions: a short-key pair, emitted and decoded
pub fn c08_kv<'a>(a: &'a mut Assembler, key: u8, val: &[u8])
    requires val@.len() <= 255, room(*old(a), val@.len() as int + 3),
{
    let mut off = a.idx;
    a.emit_simple_kv(key, val);
    let mut path: Vec<String> = Vec::new();
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    let ch = r.unwrap();
    assert(ch.ref_simple == Some(key as u16) && ch.data.unwrap()@ == val@ && off == a.idx);
    assert(texts(path@) =~= Seq::empty());
}

/// a two-byte key
pub fn c08_kv_e(a: &mut Assembler, key: u32, val: &[u8])
    requires 128 <= key < 384, val@.len() <= 255, room(*old(a), val@.len() as int + 4),
{
    let mut off = a.idx;
    a.emit_simple_kv_e(key, val);
    let mut path: Vec<String> = Vec::new();
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    let ch = r.unwrap();
    assert(ch.ref_simple.unwrap() == key && ch.data.unwrap()@ == val@ && off == a.idx);
}

/// a long key
pub fn c08_long(a: &mut Assembler, key: &[u8], val: &[u8])
    requires key@.len() <= 255, val@.len() <= 255, room(*old(a), key@.len() as int + val@.len() as int + 3),
{
    let mut off = a.idx;
    a.emit_long_kv(key, val);
    let mut path: Vec<String> = Vec::new();
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    let ch = r.unwrap();
    assert(ch.ref_data.unwrap()@ == key@ && ch.data.unwrap()@ == val@ && off == a.idx);
}

/// counted data
pub fn c08_counted(a: &mut Assembler, val: &[u8])
    requires 1 <= val@.len() <= 255, room(*old(a), val@.len() as int + 6),
{
    let mut off = a.idx;
    a.emit_simple_data_1b(val);
    let mut path: Vec<String> = Vec::new();
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    assert(r.unwrap().data.unwrap()@ == val@ && off == a.idx);
}

/// a directory pushed and popped again: the reader is where it started
pub fn c08_dir(a: &mut Assembler, dir: u32)
    requires dir < 384, room(*old(a), 5),
{
    let mut off = a.idx;
    a.push_directory(dir);
    let ghost c1 = a.buffer@;
    let ghost e1 = a.idx as int;
    let ghost o = off as int;
    a.pop_directory();
    proof {
        let c2 = a.buffer@;
        assert(forall|i: int| 0 <= i < e1 ==> c2[i] == c1[i]);
        assert(rule(c2, o) == rule(c1, o));
        assert(rule(c2, e1 - 1) == rule(c1, e1 - 1));
    }
    let mut path: Vec<String> = Vec::new();
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    assert(texts(path@) =~= seq![dec_text(dir as int)]);
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok());
    assert(off == e1 && texts(path@) =~= seq![dec_text(dir as int)]);
    let r = get_chunk_from_code(a.buffer.as_slice(), &mut off, &mut path, 0);
    assert(r.is_ok() && off == a.idx);
    assert(texts(path@) =~= Seq::empty());
}
} // verus!
fn main() {}
