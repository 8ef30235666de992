// C28: compiling source text; /repo/src/compile/compiler.rs, burn_script/compiler.rs
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::collections::{HashMap, BTreeMap};
verus! {
//@ include tostring.vi
//@ include str_ext.vi
//@ include lex_core.vi
//@ include peek_core.vi
//@ include script_types.vi
//@ rule for-ref
//@ rule type Self::Err ()
//@ rule macro panic vp_panic()

/// an aborted parse: proved unreachable for well-formed scripts
#[verifier::external_body]
pub fn vp_panic() -> !
    requires false,
{ panic!() }

pub mod burn_script {
use super::*;
//@ include script_core.vi
pub mod lexer {
use super::*;
//@ include script_lex.vi
}
pub mod parser {
use super::*;
//@ include script_parse.vi
}
/// the text of these scripts
pub open spec fn writes(code: Seq<char>, es: Seq<lexer::El>, ss: Seq<parser::ScriptSrc>) -> bool {
    lexer::reads(es, code) && parser::well_formed(ss) && bare(lexer::toks_of(es)) == parser::program_toks(ss)
}
/// the tokens as the parser sees them
pub open spec fn bare(s: Seq<lexer::Tok>) -> Seq<parser::Tok> {
    s.map_values(|t: lexer::Tok| if t.0 == TokenType::Identifier || t.0 == TokenType::Argument { t } else { parser::p(t.0) })
}
pub open spec fn is_block(code: Seq<char>) -> bool {
    code.len() <= i32::MAX && exists|es: Seq<lexer::El>, ss: Seq<parser::ScriptSrc>| writes(code, es, ss)
}
pub open spec fn result(ss: Seq<parser::ScriptSrc>) -> Seq<ScriptView> {
    ss.map_values(|s: parser::ScriptSrc| (s.name, s.params, parser::steps_of(s.body, Seq::empty())))
}
pub open spec fn scripts_in(code: Seq<char>) -> Seq<ScriptView> {
    result((choose|es: Seq<lexer::El>, ss: Seq<parser::ScriptSrc>| writes(code, es, ss)).1)
}
/// lexer and parser look at the same tokens
pub broadcast proof fn lemma_bare(s: Seq<Token>)
    ensures #[trigger] parser::view_toks(s.as_ref()) == bare(lexer::view_toks(s)),
{ assert(parser::view_toks(s.as_ref()) =~= bare(lexer::view_toks(s))); }
pub broadcast proof fn lemma_result(ss: Seq<parser::ScriptSrc>, cs: Seq<FMComponentScript>)
    ensures #[trigger] parser::compiled(ss, cs) ==> script_views(cs) == result(ss),
{
    if parser::compiled(ss, cs) {
        assert forall|i: int| 0 <= i < ss.len() implies script_view(#[trigger] cs[i]) == result(ss)[i] by { assert(parser::is_compiled(ss[i], cs[i])); }
        assert(script_views(cs) =~= result(ss));
    }
}
pub struct BurnScriptCompiler {}
impl BurnScriptCompiler {
/*@ fn burn_script/compiler.rs BurnScriptCompiler::compile_burn_script
ret res
opt keep-parse
contract
    requires is_block(code@),
    ensures script_views(res@) == scripts_in(code@),
            forall|es: Seq<lexer::El>, ss: Seq<parser::ScriptSrc>| #[trigger] writes(code@, es, ss) ==> script_views(res@) == result(ss),
at start
    broadcast use {lemma_bare, lemma_result};
    let ghost (es, ss) = choose|es: Seq<lexer::El>, ss: Seq<parser::ScriptSrc>| writes(code@, es, ss);
    proof { assert(lexer::reads(es, code@)); }
@*/
}
}
pub mod compile {
use super::*;
pub use super::burn_script::{BurnScriptCompiler, is_block, scripts_in};
//@ include prog_types.vi
//@ include prog_core.vi
pub mod lexer {
use super::*;
//@ include schema_lex.vi
}
pub mod parser {
use super::*;
//@ include prog_parse.vi
}
/// the text of a program that declares s
pub open spec fn writes(code: Seq<char>, es: Seq<lexer::El>, s: parser::Source) -> bool {
    lexer::reads(es, code) && parser::reads(s, lexer::toks_of(es)) && s.flaw is None
}
/// lexer and parser look at the same tokens
pub broadcast proof fn lemma_same(s: Seq<Token>)
    ensures #![trigger parser::view_toks(s.as_ref())] #![trigger lexer::view_toks(s)] parser::view_toks(s.as_ref()) == lexer::view_toks(s),
{ assert(parser::view_toks(s.as_ref()) =~= lexer::view_toks(s)); }
/*@ fn compile/compiler.rs compile_burn
ret res
contract
    requires exists|es: Seq<lexer::El>, s: parser::Source| #[trigger] writes(code@, es, s),
    ensures forall|es: Seq<lexer::El>, s: parser::Source| #[trigger] writes(code@, es, s) ==> parser::shows(res, parser::file_of(parser::no_file(), s.decls)),
at start
    broadcast use lemma_same;
    let ghost (es, s) = choose|es: Seq<lexer::El>, s: parser::Source| writes(code@, es, s);
    proof { assert(lexer::reads(es, code@)); }
@*/
}
fn main() {}
}
