BUGS = []
def bug(**k): BUGS.append(k)

bug(id="c01a", property="C01", needs="an integer of 2^31 or more", breaks="the upper half of a four-byte integer is widened through a signed type, so values from 2^31 up decode to something else (or overflow)",
    edits=[("src/encoding_util.rs", "        4 => (get_int(&bytes[0..2]) << 16) + get_int(&bytes[2..4]),",
            "        4 => {\n            let high = get_int(&bytes[0..2]) as i16 as usize;\n            (high << 16) | get_int(&bytes[2..4])\n        }")],
    demo='''use crate::encoding_util::{get_int, put_int};
pub fn demo() { for n in [0usize, 67, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe] { assert_eq!(get_int(&put_int(n)), n); } }
''')
bug(id="c02a", property="C02", needs="the one path integer 383, whose offset from 128 is 255", breaks="the low byte is reduced modulo 255 instead of 256, so 383 is written as 128",
    edits=[("src/encoding_util.rs", "        let mut b2 = (x & 0xFF) as u8;", "        let mut b2 = (x % 0xFF) as u8;")],
    demo='''use crate::encoding_util::{get_path_int, put_path_int};
pub fn demo() { for n in 0..384u32 { assert_eq!(get_path_int(&put_path_int(n)), n as usize); } }
''')
bug(id="c03a", property="C03", needs="text that ends in white space, or has it in front", breaks="text is trimmed before masking, so masking is no longer lossless",
    edits=[("src/encoding_util.rs", "    text\n        .bytes()\n        .into_iter()", "    text\n        .trim_end()\n        .bytes()\n        .into_iter()")],
    demo='''use crate::encoding_util::{fm_string_decrypt, fm_string_encrypt};
pub fn demo() { for s in ["", "hello", "a b", "caf\\u{e9}", "tail \\n", " "] { assert_eq!(fm_string_decrypt(&fm_string_encrypt(s.to_string())), s); } }
''')
bug(id="c04a", property="C04", needs="a name with the letter z, the last entry of the table", breaks="the search stops before the last table entry, so 'z' is encoded as 0,0",
    edits=[("src/dbcharconv.rs", "    ENCODING_MAPPING.iter()\n        .find(|&&(_, _, c)| c == ch.to_ascii_lowercase())", "    ENCODING_MAPPING[..ENCODING_MAPPING.len() - 1].iter()\n        .find(|&&(_, _, c)| c == ch.to_ascii_lowercase())")],
    demo='''use crate::dbcharconv::*;
pub fn demo() { for c in "abcdefghijklmnopqrstuvwxyz _".chars() { let (h, l) = encode_char(c); assert_eq!(decode_char(h, l), c); } 
 assert_eq!(encode_text("Zoo").len(), 6); let e = encode_text("Zoo"); assert_eq!(decode_char(e[0], e[1]), 'z'); }
''')
bug(id="c05a", property="C05", needs="opcode 0x17 with a data length of 256 bytes or more", breaks="the two-byte data length of opcode 0x17 is truncated to one byte, so the payload is too short and the next chunk is read from inside it",
    edits=[("src/chunk.rs", """            let len = get_path_int(&code[*offset..*offset+2]);
            *offset += 2;
            data = Some(&code[*offset..*offset+len]);""", """            let len = get_path_int(&code[*offset..*offset+2]) & 0xff;
            *offset += 2;
            data = Some(&code[*offset..*offset+len]);""")],
    demo='''use crate::chunk::get_chunk_from_code;
pub fn demo() {
 for lo in [0u8, 1, 100, 127, 128, 200, 255] {
   let mut code = vec![0x17u8, 1, 2, 3, 0x80, lo]; code.extend(std::iter::repeat(7u8).take(600));
   let mut off = 0; let mut path = vec![];
   let want = 128 + lo as usize;
   let c = get_chunk_from_code(&code, &mut off, &mut path, 0).unwrap();
   assert_eq!(c.data.unwrap().len(), want); assert_eq!(off, 6 + want);
 } }
''')
bug(id="c06a", property="C06", needs="the pop marker on a chunk that has neither a short nor a long reference", breaks="the pop marker is honoured only on chunks with a reference, so plain data with the marker leaves the path one too long",
    edits=[("src/chunk.rs", "    if delayed == true {\n        path.pop();\n    }", "    if delayed == true && ref_simple.is_some() | ref_data.is_some() {\n        path.pop();\n    }")],
    demo='''use crate::chunk::get_chunk_from_code;
pub fn demo() {
 // opcodes 0x03, 0x23 and 0x10 with the pop marker 0xC0
 for code in [vec![0xC3u8, 5, 1, 2, 3, 4, 0, 0], vec![0xE3u8, 2, 9, 9, 0, 0, 0], vec![0xD0u8, 1, 2, 3, 0, 0]] {
   let mut off = 0; let mut path = vec!["3".to_string(), "17".to_string()];
   get_chunk_from_code(&code, &mut off, &mut path, 0).unwrap();
   assert_eq!(path, vec!["3".to_string()]);
 } }
''')
bug(id="c07a", property="C07", needs="a sector whose next-sector number is 65536 or more", breaks="only the low half of the next-sector field is read",
    edits=[("src/decompile/sector.rs", "        get_int(&sector[8..12]),", "        get_int(&sector[10..12]),")],
    demo='''use crate::decompile::sector::get_sector;
pub fn demo() { for (b, n) in [([0u8,0,0,7], 7usize), ([0,0,255,1], 0xff01), ([0,1,0,2], 0x10002), ([9,8,7,6], 0x09080706)] {
  let mut s = vec![0u8; 4096]; s[8..12].copy_from_slice(&b); assert_eq!(get_sector(&s).next, n); } }
''')
bug(id="c08a", property="C08", needs="a directory number of 256 or more (table id 128 and up)", breaks="directory numbers are reduced to one byte before they are encoded",
    edits=[("src/compile/assembler.rs", "    fn push_directory(&mut self, dir: u32) {\n        let d = put_path_int(dir);", "    fn push_directory(&mut self, dir: u32) {\n        let d = put_path_int(dir % 256);")],
    mount="compile/assembler.rs", inner='''
use crate::chunk::get_chunk_from_code;
pub fn demo() {
  let f = FmpFile::new(); 
  for dir in [0u32, 3, 127, 128, 200, 255, 256, 300, 383] {
    let mut a = Assembler::new(&f); a.buffer.resize(64, 0);
    a.push_directory(dir);
    let (mut off, mut path) = (0usize, vec![]);
    get_chunk_from_code(&a.buffer, &mut off, &mut path, 0).unwrap();
    assert_eq!(path, vec![dir.to_string()]);
  }
}
''', demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c09a", property="C09", needs="a schema with at least one layout", breaks="the layout section returns early and leaves its directories open when the file has layouts",
    edits=[("src/compile/assembler.rs", "        self.emit_simple_kv(0, &[1, self.file.layouts.len() as u8]);\n        self.push_directory(5);\n        self.pop_directory();",
            "        self.emit_simple_kv(0, &[1, self.file.layouts.len() as u8]);\n        self.push_directory(5);\n        if self.file.layouts.is_empty() {\n            self.pop_directory();\n        }")],
    mount="compile/assembler.rs", inner='''
use crate::chunk::get_chunk_from_code;
pub fn demo() {
  for n in [0usize, 1, 3] {
    let mut f = FmpFile::new();
    for i in 0..n { f.layouts.insert(i + 1, serde_layout(i)); }
    let mut a = Assembler::new(&f); a.buffer.resize(4096, 0);
    a.emit_layout_data();
    let (mut off, mut path) = (0usize, vec![]);
    while off < a.idx { get_chunk_from_code(&a.buffer, &mut off, &mut path, 0).unwrap(); }
    assert!(path.is_empty(), "{} layouts leave {:?} open", n, path);
  }
}
fn serde_layout(i: usize) -> crate::component::FMComponentLayout { let mut l = crate::component::FMComponentLayout::new(); l.layout_name = format!("layout {i}"); l }
''', demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c10a", property="C10", needs="an unrecognised intrinsic code followed by more tokens", breaks="the operand of an intrinsic prefix is only consumed when it is recognised, so it is read again as a token",
    edits=[("src/decompile/decompiler.rs", "                match it.next().unwrap() {\n                    0x3 => { result.push_str(\"Char\")}\n                    _ => eprintln!(\"unrecognized intrinsic.\")\n                }",
            "                match it.peek() {\n                    Some(0x3) => { it.next(); result.push_str(\"Char\")}\n                    _ => eprintln!(\"unrecognized intrinsic.\")\n                }")],
    mount="decompile/decompiler.rs", inner='''
pub fn demo() {
  assert_eq!(decompile_calculation(&[0xfb, 0x03, 0x04, 0x05]), "Char()");
  assert_eq!(decompile_calculation(&[0xfb, 0x25, 0x04, 0x05]), "()");
  assert_eq!(decompile_calculation(&[0x04, 0xfb, 0x13, 0x05]), "()");
}
''', demo='pub fn demo() { crate::decompile::decompiler::vp_inner::demo() }\n')

DBDEMO = '''
pub fn db() -> Database {
  let mut d = Database::new();
  let f = |n: &str, v: &[&str]| { let mut f = Field::new(); f.name = n.to_string(); f.records = v.iter().map(|x| x.to_string()).collect(); f };
  let mut t0 = Table::new("a".into()); t0.fields.push(f("id", &["1", "2", "3"])); t0.fields.push(f("name", &["x", "y", "z"]));
  let mut t1 = Table::new("b".into()); t1.fields.push(f("id", &["7", "8"])); t1.fields.push(f("name", &["p", "q"]));
  d.tables = vec![t0, t1];
  for (i, t) in [0u16, 0, 1].iter().enumerate() {
    let mut o = TableOccurrence::new(); o.table_ptr = *t; o.found_set = (0..d.tables[*t as usize].fields[0].records.len()).collect();
    d.occurrence_indices.insert(format!("o{i}"), i as u16); d.table_occurrences.push(o);
  }
  d
}
'''
bug(id="c11a", property="C11", needs="a record created while an occurrence of the table shows fewer records than the table holds", breaks="the position is set to the record's number in the table instead of its place in the found set",
    edits=[("src/testing/database.rs", "                occurrence.record_ptr = occurrence.found_set.len() - 1;", "                occurrence.record_ptr = n;")],
    mount="testing/database.rs", inner=DBDEMO + '''
pub fn demo() {
  let mut d = db();
  d.create_record();
  assert_eq!(d.table_occurrences[1].get_current_record().unwrap(), 3);
  d.update_found_set(&vec![2]);
  d.create_record();
  for o in 0..2 { assert_eq!(d.table_occurrences[o].get_current_record().unwrap(), 4); }
}
''', demo='pub fn demo() { crate::testing::database::vp_inner::demo() }\n')
bug(id="c12a", property="C12", needs="going to the record number that equals the size of the found set", breaks="the bound check lets the number just past the end through, so there is no current record afterwards",
    edits=[("src/testing/database.rs", "        if record_id as usize >= set.found_set.len() {", "        if record_id as usize > set.found_set.len() {")],
    mount="testing/database.rs", inner=DBDEMO + '''
pub fn demo() {
  let mut d = db();
  for (to, want) in [(0, 0), (1, 1), (2, 2), (3, 2), (4, 2), (400, 2)] { d.goto_record(to); assert_eq!(d.get_current_occurrence().record_ptr, want); }
}
''', demo='pub fn demo() { crate::testing::database::vp_inner::demo() }\n')
bug(id="c13a", property="C13", needs="a find performed while the current record is not the first one", breaks="the position before the find is kept when it still fits instead of going to the first record found",
    edits=[("src/testing/database.rs", "        handle.record_ptr = 0;\n    }\n\n    pub fn reset_found_set", "        handle.record_ptr = handle.record_ptr.min(handle.found_set.len() - 1);\n    }\n\n    pub fn reset_found_set")],
    mount="testing/database.rs", inner=DBDEMO + '''
pub fn demo() {
  let mut d = db();
  d.update_found_set(&vec![2, 0]);
  assert_eq!((d.get_current_occurrence().record_ptr, d.get_current_record_field("name")), (0, "z"));
  d.goto_next_record();
  d.update_found_set(&vec![0, 1]);
  assert_eq!((d.get_current_occurrence().record_ptr, d.get_current_record_field("name")), (0, "x"));
}
''', demo='pub fn demo() { crate::testing::database::vp_inner::demo() }\n')
bug(id="c14a", property="C14", needs="a field read through an occurrence other than the current one, standing on another record", breaks="the record of the current occurrence is used instead of the one of the named occurrence",
    edits=[("src/testing/database.rs", """    pub fn get_current_record_by_table_field(&self, occurrence: &str, field: &str) -> Result<&str, &str> {

        let occurrence = &self.table_occurrences[self.occurrence_indices[occurrence] as usize];
        let id = occurrence.get_current_record();""", """    pub fn get_current_record_by_table_field(&self, occurrence: &str, field: &str) -> Result<&str, &str> {

        let occurrence = &self.table_occurrences[self.occurrence_indices[occurrence] as usize];
        let id = self.get_current_occurrence().get_current_record();""")],
    mount="testing/database.rs", inner=DBDEMO + '''
pub fn demo() {
  let mut d = db();
  assert_eq!(d.get_current_record_by_table_field("o1", "name").unwrap(), "x");
  d.goto_record(2);
  assert_eq!(d.get_current_record_by_table_field("o0", "name").unwrap(), "z");
  assert_eq!(d.get_current_record_by_table_field("o1", "name").unwrap(), "x");
}
''', demo='pub fn demo() { crate::testing::database::vp_inner::demo() }\n')

bug(id="c19a", property="C19", needs="an else-if branch with more than one argument", breaks="an else-if step keeps only its last argument",
    edits=[("src/burn_script/parser.rs", """                                        TokenType::Argument => {
                                            step.switches.push(t.value.clone());
                                        }
                                        _ => {
                                            if t.ttype != TokenType::OpenBracket {
                                                panic!("missing open bracket on elif");""", """                                        TokenType::Argument => {
                                            step.switches = vec![t.value.clone()];
                                        }
                                        _ => {
                                            if t.ttype != TokenType::OpenBracket {
                                                panic!("missing open bracket on elif");""")],
    demo='''use crate::burn_script::compiler::BurnScriptCompiler;
pub fn demo() {
 let s = BurnScriptCompiler::compile_burn_script("define f(a) { if(a == 1, 0) { exit_script(a); } elif(a == 2, 7) { exit_script(a); } else { exit_script(0); } }");
 let args: Vec<Vec<String>> = s[0].instructions.iter().map(|x| x.switches.clone()).collect();
 assert_eq!(args[0], vec!["a == 1", "0"]); assert_eq!(args[2], vec!["a == 2", "7"]); assert_eq!(args.len(), 7);
}
''')
bug(id="c19b", property="C19", needs="an if block directly inside another if block", breaks="an if inside an if is not remembered as open, so the inner bracket closes the outer block and the outer one ends the script",
    edits=[("src/burn_script/parser.rs", "                                punc_stack.push(Instruction::If);", "                                if punc_stack.last() != Some(&Instruction::If) {\n                                    punc_stack.push(Instruction::If);\n                                }")],
    demo='''use crate::burn_script::compiler::BurnScriptCompiler;
use crate::fm_script_engine::fm_script_engine_instructions::Instruction as I;
pub fn demo() {
 let s = BurnScriptCompiler::compile_burn_script("define f(a) { if(a) { loop { if(b) { if(c) { exit_script(1); } } exit_loop_if(a); } } exit_script(2); } define g(b) { exit_script(3); }");
 assert_eq!(s.len(), 2);
 let ops: Vec<I> = s[0].instructions.iter().map(|x| x.opcode.clone()).collect();
 assert_eq!(ops, vec![I::If, I::Loop, I::If, I::If, I::ExitScript, I::EndIf, I::EndIf, I::ExitLoopIf, I::EndLoop, I::EndIf, I::ExitScript]);
}
''')
bug(id="c20a", property="C20", needs="two value lists declared before a table", breaks="value lists are numbered by the tables seen so far, so one overwrites another",
    edits=[("src/compile/parser.rs", "ret.value_lists.insert(ret.value_lists.len() + 1, value_list);", "ret.value_lists.insert(ret.value_lists.len().min(ret.tables.len()) + 1, value_list);")],
    demo='''pub fn demo() {
 let f = crate::compile::parser::Parser::new(crate::compile::lexer::tokenize("table t : a : Text, end table; value_list one : x, y end value_list; value_list two : z end value_list; value_list three : z end value_list;")).parse_program().unwrap();
 let mut n: Vec<_> = f.value_lists.iter().map(|(k, v)| (*k, v.list_name.clone())).collect(); n.sort();
 assert_eq!(n, vec![(1, "one".to_string()), (2, "two".to_string()), (3, "three".to_string())]);
}
''')
bug(id="c20b", property="C20", needs="a script block that holds several scripts", breaks="the scripts of a block are spread over numbers with gaps, and a later block can overwrite one",
    edits=[("src/compile/parser.rs", "                    for s in scripts {\n                        ret.scripts.insert(ret.scripts.len() + 1, s);", "                    for (i, s) in scripts.into_iter().enumerate() {\n                        ret.scripts.insert(ret.scripts.len() + i + 1, s);")],
    demo='''pub fn demo() {
 let f = crate::compile::parser::Parser::new(crate::compile::lexer::tokenize("script : [ define a(x) { exit_script(x); } define b(x) { exit_script(x); } ] script : [ define c(x) { exit_script(x); } ]")).parse_program().unwrap();
 let mut n: Vec<_> = f.scripts.iter().map(|(k, v)| (*k, v.script_name.clone())).collect(); n.sort();
 assert_eq!(n, vec![(1, "a".to_string()), (2, "b".to_string()), (3, "c".to_string())]);
}
''')
bug(id="c25a", property="C25", needs="an empty argument before another one", breaks="an empty argument leaves no token, so later arguments move up",
    edits=[("src/burn_script/lexer.rs", """                                if stack == 0 {
                                    ret.push(Token::with_value(TokenType::Argument, &buffer));
                                    buffer.clear();
                                } else {""", """                                if stack == 0 {
                                    if !buffer.is_empty() {
                                        ret.push(Token::with_value(TokenType::Argument, &buffer));
                                    }
                                    buffer.clear();
                                } else {""")],
    demo='''use crate::burn_script::lexer::Lexer;
pub fn demo() {
 let t: Vec<String> = Lexer::new("f(min(max(1, 2), 3), , x);".to_string()).get_tokens().into_iter().map(|t| t.value).collect();
 assert_eq!(t, vec!["f", "min(max(1, 2), 3)", "", "x", ""]);
}
''')
bug(id="c25b", property="C25", needs="a name of one letter directly before a multiplication sign", breaks="a pending word of one character is dropped there",
    edits=[("src/burn_script/lexer.rs", """                    if buffer.len() > 0 {
                        let b = flush_buffer(buffer.as_str());
                        buffer.clear();
                        ret.push(b);
                    }
                    ret.push(Token::new(TokenType::Multiply));""", """                    if buffer.len() > 1 {
                        let b = flush_buffer(buffer.as_str());
                        buffer.clear();
                        ret.push(b);
                    }
                    ret.push(Token::new(TokenType::Multiply));""")],
    demo='''use crate::burn_script::lexer::Lexer;
pub fn demo() {
 for (s, n) in [("let total = rate * 2;", 6), ("let total = rate* 2;", 6), ("let total = r * 2;", 6), ("let total = r* 2;", 6)] {
  // `let`, name, =, name, *, number and ;
  assert_eq!(Lexer::new(s.to_string()).get_tokens().len(), n + 1, "{}", s);
 }
}
''')
bug(id="c26a", property="C26", needs="a string literal with blanks at its end", breaks="string literals lose leading and trailing blanks",
    edits=[("src/compile/lexer.rs", "list.push(Token { ttype: TokenType::String, text: buffer.to_string()});", "list.push(Token { ttype: TokenType::String, text: buffer.trim_end().to_string()});")],
    demo='''use crate::compile::lexer::tokenize;
pub fn demo() {
 let t: Vec<String> = tokenize("field : \\"a b\\" , \\"c  \\" ;").into_iter().map(|t| t.text).collect();
 assert_eq!(t, vec!["field", "", "a b", "", "c  ", ""]);
}
''')
bug(id="c26b", property="C26", needs="a name that starts with an underscore or a letter outside ASCII", breaks="such names are dropped from the token stream",
    edits=[("src/compile/lexer.rs", "                } else if !b.as_bytes()[0].is_ascii_digit() {", "                } else if b.as_bytes()[0].is_ascii_alphabetic() {")],
    demo='''use crate::compile::lexer::tokenize;
pub fn demo() {
 let t: Vec<String> = tokenize("table \\u{e9}t\\u{e9} : _id : Number, name : Text, end table;").into_iter().map(|t| t.text).filter(|t| !t.is_empty()).collect();
 assert_eq!(t, vec!["\\u{e9}t\\u{e9}", "_id", "Number", "name", "Text"]);
}
''')

C24_FILE = r'''use crate::decompile::decompiler::decompile_fmp12_file;
use crate::file::FmpFile;
fn mask(t: &str) -> Vec<u8> { t.bytes().map(|b| b ^ 0x5a).collect() }
fn push(n: usize) -> Vec<u8> { if n == 251 || n < 128 { vec![0x20, n as u8] } else { vec![0x28, 0x80, (n - 128) as u8] } }
fn pop(n: usize) -> Vec<u8> { vec![0x40; n] }
fn rec(key: u8, data: &[u8]) -> Vec<u8> { let mut b = vec![0x06, key, data.len() as u8]; b.extend(data); b }
fn dirs(p: &[usize]) -> Vec<u8> { p.iter().flat_map(|n| push(*n)).collect() }
/// sectors in chain order, each with its number; the file has `count` sectors
fn file(count: usize, chain: &[(usize, Vec<u8>)]) -> FmpFile {
    let mut buf = vec![0u8; 4096 * count];
    buf[4096 + 8..4096 + 12].copy_from_slice(&((count - 1) as u32).to_be_bytes());
    for (i, (at, body)) in chain.iter().enumerate() {
        let o = 4096 * at;
        let next = chain.get(i + 1).map_or(0, |c| c.0);
        buf[o + 8..o + 12].copy_from_slice(&(next as u32).to_be_bytes());
        for b in &mut buf[o + 20..o + 4096] { *b = 0x80; }
        buf[o + 20..o + 20 + body.len()].copy_from_slice(body);
    }
    let path = std::path::PathBuf::from("demo_input.fmp12");
    std::fs::write(&path, &buf).unwrap();
    let f = decompile_fmp12_file(&path);
    std::fs::remove_file(&path).unwrap();
    f
}
fn script_name(n: usize, name: &str) -> Vec<u8> {
    [dirs(&[17, 1, 1, n]), rec(16, &mask(name)), pop(4)].concat()
}
fn script_step(op: u8, id: u8) -> Vec<u8> { let mut v = vec![0u8; 28]; v[0] = 2; v[2] = id; v[21] = op; v }
fn segment(no: u8, d: &[u8]) -> Vec<u8> { [vec![0x07, no, 0, d.len() as u8], d.to_vec()].concat() }
fn layout(n: usize, name: &str, occurrence: usize) -> Vec<u8> {
    [dirs(&[4, 1, 7, n]), rec(2, &[0, (occurrence + 128) as u8]), rec(16, &mask(name)), pop(4)].concat()
}
'''
bug(id="c24a", property="C24", needs="a script stored in several data segments which do not lie in the order of their numbers", breaks="segments are put together in the order they lie in, so the steps come out shuffled",
    edits=[("src/decompile/decompiler.rs", "let n = chunk.segment_idx.unwrap() as usize;", "let n = script_segments.get(&x.parse::<usize>().unwrap()).map_or(0, |s| s.len());")],
    demo=C24_FILE + r'''
fn steps(order: &[u8]) -> Vec<usize> {
    let mut b = script_name(3, "main");
    b.extend(dirs(&[17, 5, 3, 4]));
    for n in order { b.extend(segment(*n, &script_step(68, 10 + n))); }
    b.extend(pop(4));
    let f = file(4, &[(2, b)]);
    assert_eq!(f.scripts[&3].script_name, "main");
    f.scripts[&3].instructions.iter().map(|s| s.index).collect()
}
pub fn demo() {
    assert_eq!(steps(&[1, 2, 3]), vec![11, 12, 13]);
    assert_eq!(steps(&[2, 3, 1]), vec![11, 12, 13]);
    assert_eq!(steps(&[9, 1]), vec![11, 19]);
}
''')
bug(id="c24b", property="C24", needs="a file whose chain of sectors goes back to a sector with a smaller number", breaks="the chain is abandoned there and the components stored behind it are missing",
    edits=[("src/decompile/decompiler.rs", "        idx = sectors[idx].next;", "        let next = sectors[idx].next;\n        idx = if next > idx { next } else { 0 };")],
    demo=C24_FILE + r'''
pub fn demo() {
    let f = file(6, &[(2, layout(1, "a", 1)), (3, layout(2, "b", 2)), (5, layout(3, "c", 3))]);
    assert_eq!(f.layouts.len(), 3);
    let f = file(6, &[(2, layout(1, "a", 1)), (5, layout(2, "b", 2)), (3, layout(3, "c", 3))]);
    assert_eq!(f.layouts.len(), 3);
    assert_eq!(f.layouts[&3].layout_name, "c");
}
''')
bug(id="c24c", property="C24", needs="a layout on a table occurrence with a number of 64 or more", breaks="the layout is tied to another occurrence",
    edits=[("src/decompile/decompiler.rs", "let occurrence = chunk.data.unwrap()[1] as usize - 128;", "let occurrence = (chunk.data.unwrap()[1] & 0x3f) as usize;")],
    demo=C24_FILE + r'''
pub fn demo() {
    for n in [1usize, 2, 63, 64, 65, 127] {
        let f = file(4, &[(2, layout(7, "x", n))]);
        assert_eq!((f.layouts[&7].table_occurrence, f.layouts[&7].layout_name.as_str()), (n, "x"));
    }
}
''')
bug(id="c24d", property="C24", needs="a relationship whose second key field has a number of 128 or more", breaks="the criterion names another field",
    edits=[("src/decompile/decompiler.rs", "let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) - 128;", "let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) & 0x7f;")],
    demo=C24_FILE + r'''
fn fields(a: u8, b: u8) -> (u16, u16) {
    let occurrence = |n: u8, other: u8| [dirs(&[3, 17, 5]), vec![0x30, 208, 0, n], rec(2, &[0, 0, 0, 0, 0, 0, 129]), rec(16, &mask("t")),
        dirs(&[251]), vec![0x12, 208, 0, other, 1, 2], pop(5)].concat();
    let crit = rec(1, &[0, 2, 0x80, a, 2, 0x80, b]);
    let f = file(4, &[(2, [occurrence(1, 2), occurrence(2, 1), dirs(&[3, 251, 5, 2, 3]), crit, pop(5)].concat())]);
    let r = &f.relationships[&2];
    assert_eq!((r.table1, r.table2), (1, 2));
    (r.field1, r.field2)
}
pub fn demo() {
    for (a, b) in [(1, 2), (127, 127), (200, 3), (3, 128), (128, 255)] {
        assert_eq!(fields(a, b), (a as u16, b as u16));
    }
}
''')
bug(id="c27a", property="C27", needs="a stored step with opcode 13 or 14", breaks="the two instructions are mixed up",
    edits=[("src/fm_script_engine/fm_script_engine_instructions.rs", "Some(Instruction::InsertCurrentDate),\n\t  Some(Instruction::InsertCurrentTime),", "Some(Instruction::InsertCurrentTime),\n\t  Some(Instruction::InsertCurrentDate),")],
    demo=r'''use crate::fm_script_engine::fm_script_engine_instructions::INSTRUCTIONMAP;
pub fn demo() {
    for n in 0..256usize {
        if let Some(i) = INSTRUCTIONMAP[n].clone() { assert_eq!(i as usize, n); }
    }
}
''')
bug(id="c27b", property="C27", needs="script code in a record that has an opcode of 128 or more", breaks="the step becomes the instruction whose number is 128 less",
    edits=[("src/decompile/decompiler.rs", "                                for ins in instrs {\n                                    if ins.len() > 21 {\n                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];", "                                for ins in instrs {\n                                    if ins.len() > 21 {\n                                    let oc = &INSTRUCTIONMAP[(ins[21] & 0x7f) as usize];")],
    demo=C24_FILE + r'''
pub fn demo() {
    for op in [68u8, 87, 130, 141, 209] {
        let code = script_step(op, 1);
        let f = file(4, &[(2, [script_name(3, "main"), dirs(&[17, 5, 3]), rec(4, &code), pop(3)].concat())]);
        let got: Vec<usize> = f.scripts[&3].instructions.iter().map(|s| s.opcode.clone() as usize).collect();
        assert_eq!(got, [op as usize]);
    }
}
''')

# ---- second and third bugs ----
bug(id="c01b", property="C01", needs="an integer of 2^24 or more", breaks="the top byte of the four is never written",
    edits=[("src/encoding_util.rs", "    while n > 0 {", "    while n > 0 && idx > 1 {")],
    demo="""use crate::encoding_util::{get_int, put_int};
pub fn demo() { for n in [0usize, 67, 0x10000, 0xff_ffff, 0x1000000, 0x2000001] { assert_eq!(get_int(&put_int(n)), n); } }
""")
bug(id="c03b", property="C03", needs="text that ends in a NUL character", breaks="trailing NULs are cut off when text is unmasked",
    edits=[("src/encoding_util.rs", "        Ok(v) => v.to_string(),", "        Ok(v) => v.trim_end_matches('\\0').to_string(),")],
    demo="""use crate::encoding_util::{fm_string_decrypt, fm_string_encrypt};
pub fn demo() { for s in ["", "hello", "a\\0b", "a\\0", "\\0"] { assert_eq!(fm_string_decrypt(&fm_string_encrypt(s.to_string())), s); } }
""")
bug(id="c04b", property="C04", needs="a name that itself ends in the NUL character", breaks="all trailing NULs are taken for the terminator",
    edits=[("src/dbcharconv.rs", '.collect::<String>().strip_suffix("\\0").unwrap().to_string()', ".collect::<String>().trim_end_matches('\\0').to_string()")],
    demo="""use crate::dbcharconv::{decode_bytes, encode_text};
pub fn demo() { for s in ["", "hello", "a\\0b", "a\\0", "z _\\0\\0"] { assert_eq!(decode_bytes(&encode_text(&format!("{s}\\0"))), s); } }
""")
bug(id="c05b", property="C05", needs="a long reference (opcode 0x1F) with 32768 or more bytes of data", breaks="the top bit of the length is masked off, as in directory numbers",
    edits=[("src/chunk.rs", "            ref_data = Some(&code[*offset..*offset+ref_len]);\n            *offset += ref_len;\n            let len = get_int(&code[*offset..*offset+2]);", "            ref_data = Some(&code[*offset..*offset+ref_len]);\n            *offset += ref_len;\n            let len = ((code[*offset] as usize & 0x7f) << 8) | code[*offset+1] as usize;")],
    demo="""use crate::chunk::get_chunk_from_code;
pub fn demo() {
 for n in [0usize, 1, 255, 256, 300, 0x7fff, 0x8000, 0xffff] {
   let mut code = vec![0x1f, 2, 7, 8, (n >> 8) as u8, n as u8]; code.resize(6 + n + 4, 3);
   let mut off = 0; let mut path = vec![];
   let c = get_chunk_from_code(&code, &mut off, &mut path, 0).unwrap();
   assert_eq!((c.data.unwrap().len(), off), (n, 6 + n));
 } }
""")
bug(id="c06b", property="C06", needs="a directory push of opcode 0x38 whose length is not 2", breaks="the reader moves past the directory number only, and reads the rest of it as chunks",
    edits=[("src/chunk.rs", "            path.push(get_path_int(&code[*offset..*offset+2]).to_string());\n            *offset += len;", "            path.push(get_path_int(&code[*offset..*offset+2]).to_string());\n            *offset += data.map_or(len, |d| d.len());")],
    demo="""use crate::chunk::get_chunk_from_code;
pub fn demo() {
 for n in [2usize, 3, 4, 9] {
   let mut code = vec![0x38, n as u8]; code.resize(2 + n, 1); code.extend([0x80, 0x80]);
   let mut off = 0; let mut path = vec![];
   get_chunk_from_code(&code, &mut off, &mut path, 0).unwrap();
   assert_eq!((path.len(), off), (1, 2 + n));
 } }
""")
bug(id="c07b", property="C07", needs="a deleted sector whose flag byte is not exactly 1", breaks="only a flag of 1 counts as deleted",
    edits=[("src/decompile/sector.rs", "        sector[0] != 0,", "        sector[0] == 1,")],
    demo="""use crate::decompile::sector::get_sector;
pub fn demo() { for b in [0u8, 1, 2, 0x80, 255] { let mut s = vec![0u8; 4096]; s[0] = b; assert_eq!(get_sector(&s).deleted, b != 0); } }
""")
bug(id="c08b", property="C08", needs="a table name of 63 letters or more", breaks="the length byte of a long key is capped, so the reader splits the record elsewhere",
    edits=[("src/compile/assembler.rs", "        self.buffer[self.idx] = key.len() as u8;\n        self.idx += 1;\n        // let db_encoding", "        self.buffer[self.idx] = key.len().min(0x7f) as u8;\n        self.idx += 1;\n        // let db_encoding")],
    mount="compile/assembler.rs", inner="""
use crate::chunk::get_chunk_from_code;
pub fn demo() {
  let f = FmpFile::new();
  for k in [1usize, 2, 126, 127, 128, 129, 200] {
    let mut a = Assembler::new(&f); a.buffer.resize(1024, 0);
    a.emit_long_kv(&vec![5; k], &[2, 128, 1]);
    let (mut off, mut path) = (0usize, vec![]);
    let c = get_chunk_from_code(&a.buffer, &mut off, &mut path, 0).unwrap();
    assert_eq!((c.ref_data.unwrap().len(), c.data, off), (k, Some(&[2u8, 128, 1][..]), a.idx));
  }
}
""", demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c09b", property="C09", needs="a file name with a letter outside ASCII", breaks="the name is written over as many bytes as it has letters, so the file grows and its sectors shift",
    edits=[("src/compile/assembler.rs", "self.buffer.splice(3082..3082+name_header.len(), name_header", "self.buffer.splice(3082..3082+name_header.chars().count(), name_header")],
    mount="compile/assembler.rs", inner="""
pub fn demo() {
  for n in ["", "x", "quotes", "caf\\u{e9}", "\\u{540d}\\u{524d}"] {
    let mut f = FmpFile::new(); f.name = n.to_string();
    let mut a = Assembler::new(&f); a.assemble_fmp12(&f);
    assert_eq!(a.buffer.len() % 4096, 0);
  }
}
""", demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c10b", property="C10", needs="a string literal of 128 bytes or more in a calculation", breaks="its length is read with the top bit masked off, so the rest of the string is read as tokens",
    edits=[("src/decompile/decompiler.rs", "                let mut text = String::new();\n                text.push('\"');", "                let mut text = String::with_capacity(s.len() + 2);\n                text.push('\"');"),
           ("src/decompile/decompiler.rs", "                /* Processing String */\n                let n = it.next();", "                /* Processing String */\n                let size = it.next().map(|n| n & 0x7f);\n                let n = size.as_ref();")],
    mount="decompile/decompiler.rs", inner="""
pub fn demo() {
  for n in [0usize, 1, 127, 128, 200, 255] {
    let mut code = vec![0x04, 0x13, n as u8]; code.extend(vec![b'x' ^ 0x5a; n]); code.push(0x05);
    assert_eq!(decompile_calculation(&code), format!("(\\"{}\\")", "x".repeat(n)));
  }
}
""", demo='pub fn demo() { crate::decompile::decompiler::vp_inner::demo() }\n')
bug(id="c19c", property="C19", needs="a step with the same argument twice", breaks="the second of two equal arguments is dropped",
    edits=[("src/burn_script/parser.rs", "                                            TokenType::Argument => {\n                                                step.switches.push(t.value.clone());\n                                            }", "                                            TokenType::Argument if step.switches.contains(&t.value) => {}\n                                            TokenType::Argument => {\n                                                step.switches.push(t.value.clone());\n                                            }")],
    demo="""use crate::burn_script::compiler::BurnScriptCompiler;
pub fn demo() {
  let s = BurnScriptCompiler::compile_burn_script("define a(x) { set_variable(x, 1); set_variable(x, x); set_field(a, b, a); }");
  let got: Vec<_> = s[0].instructions.iter().map(|i| i.switches.clone()).collect();
  assert_eq!(got, vec![vec!["x", "1"], vec!["x", "x"], vec!["a", "b", "a"]]);
}
""")
bug(id="c20c", property="C20", needs="a table whose name starts with an underscore", breaks="leading underscores are cut off the name",
    edits=[("src/compile/parser.rs", "                        table.table_name = parser_iter.next().unwrap().text.clone();", "                        table.table_name = parser_iter.next().unwrap().text.trim_start_matches('_').to_string();")],
    demo="""pub fn demo() {
 let f = crate::compile::parser::Parser::new(crate::compile::lexer::tokenize("table _log : a : Text, end table; table log : a : Text, end table;")).parse_program().unwrap();
 assert_eq!((f.tables[&1].table_name.as_str(), f.tables[&2].table_name.as_str()), ("_log", "log"));
}
""")
bug(id="c26c", property="C26", needs="a string literal that ends in white space", breaks="white space before the closing quote is dropped",
    edits=[("src/compile/lexer.rs", "list.push(Token { ttype: TokenType::String, text: buffer.to_string()});", "list.push(Token { ttype: TokenType::String, text: buffer.trim_end().to_string()});")],
    demo="""use crate::compile::lexer::tokenize;
pub fn demo() {
 for t in ["", "a", "a b", "a ", " ", "tab\\t"] {
   let k: Vec<_> = tokenize(&format!("table t : x = \\"{t}\\" ; ")).into_iter().map(|t| t.text).collect();
   assert!(k.contains(&t.to_string()), "{k:?}");
   assert_eq!(k[5], t);
 }
}
""")
bug(id="c28a", property="C28", needs="a tab inside a string literal of a script", breaks="tabs are replaced by spaces before the script is lexed, inside strings as well",
    edits=[("src/burn_script/compiler.rs", "lexer::Lexer::new(code.to_string())", "lexer::Lexer::new(code.replace('\\t', \" \"))")],
    demo="""use crate::burn_script::compiler::BurnScriptCompiler;
pub fn demo() {
  let s = BurnScriptCompiler::compile_burn_script("define\\ta(x)\\n{\\tset_variable(x, \\"a\\tb\\"); }");
  assert_eq!(s[0].instructions[0].switches, vec!["x", "\\"a\\tb\\""]);
}
""")
bug(id="c28b", property="C28", needs="two scripts of the same name next to each other in one block", breaks="the second one is dropped, so later scripts move up a number",
    edits=[("src/burn_script/compiler.rs", "        let scripts = parser::Parser", "        let mut scripts = parser::Parser"), ("src/burn_script/compiler.rs", "        return scripts;", "        scripts.dedup_by(|a, b| a.script_name == b.script_name);\n        return scripts;")],
    demo="""use crate::compile::compiler::compile_burn;
pub fn demo() {
  let f = compile_burn("script : [ define a(x) { exit_script(1); } define a(y) { exit_script(2); } define b(y) { exit_script(3); } ] ");
  let got: Vec<_> = (1..=3).map(|i| f.scripts[&i].instructions[0].switches[0].clone()).collect();
  assert_eq!(got, vec!["1", "2", "3"]);
}
""")
bug(id="c28c", property="C28", needs="a line inside a string or script that starts with two slashes", breaks="such lines are taken for comments and removed before lexing, wherever they are",
    edits=[("src/compile/compiler.rs", "    let tokens = lexer::tokenize(&code);", "    let code: String = code.split_inclusive('\\n').filter(|l| !l.starts_with(\"//\")).collect();\n    let tokens = lexer::tokenize(&code);")],
    demo="""use crate::compile::compiler::compile_burn;
pub fn demo() {
  let f = compile_burn("script : [ define a(x) { set_variable(x, \\"one\\n//two\\nthree\\"); } ] ");
  assert_eq!(f.scripts[&1].instructions[0].switches[1], "\\"one\\n//two\\nthree\\"");
}
""")
bug(id="c24e", property="C24", needs="a data source whose path is stored with the byte 219", breaks="the byte stands for one slash instead of two",
    edits=[("src/component.rs", "[219] => { vec![(116 as u8), (116 as u8)] },", "[219] => { vec![(116 as u8)] },")],
    demo="""use crate::component::SourceFileLocation;
pub fn demo() {
  for (p, w) in [(vec![b'a' ^ 0x5a], "a"), (vec![b'a' ^ 0x5a, 218, b'b' ^ 0x5a], "a/b"), (vec![219, b'b' ^ 0x5a], "..b")] {
    let mut b = vec![0u8, 0, 0, 0, 9, b'f' ^ 0x5a, p.len() as u8, 65, 50]; b.extend(&p); b.push(1); b.push(b'q' ^ 0x5a);
    let r = SourceFileLocation::from_bytes(&b);
    assert_eq!((r.source_path.as_str(), r.source_filename.as_str()), (w, "q"));
  }
}
""")
bug(id="c24f", property="C24", needs="a file whose chain has more than 250 sectors", breaks="reading stops after 250 sectors, so components stored behind them are missing",
    edits=[("src/decompile/decompiler.rs", "    while idx != 0 {\n        let start", "    let mut visited = 0u8;\n    while idx != 0 && visited < 250 {\n        visited += 1;\n        let start")],
    demo=C24_FILE + r'''
pub fn demo() {
    for n in [3usize, 100, 249, 260, 700] {
        let mut chain: Vec<(usize, Vec<u8>)> = (2..n).map(|i| (i, vec![])).collect();
        chain[0].1 = layout(1, "a", 1);
        chain.push((n, layout(2, "b", 2)));
        let f = file(n + 1, &chain);
        assert_eq!(f.layouts.len(), 2, "{n}");
        assert_eq!(f.layouts[&2].layout_name, "b");
    }
}
''')
bug(id="c03c", property="C03", needs="text that begins with a byte order mark", breaks="the mark is cut off when text is unmasked",
    edits=[("src/encoding_util.rs", "        Ok(v) => v.to_string(),", "        Ok(v) => v.strip_prefix('\\u{feff}').unwrap_or(&v).to_string(),")],
    demo="""use crate::encoding_util::{fm_string_decrypt, fm_string_encrypt};
pub fn demo() { for s in ["", "hello", "a\\u{feff}b", "\\u{feff}a", "\\u{feff}"] { assert_eq!(fm_string_decrypt(&fm_string_encrypt(s.to_string())), s); } }
""")
bug(id="c07c", property="C07", needs="a slice of more than 4096 bytes", breaks="the payload stops 4096 bytes in",
    edits=[("src/decompile/sector.rs", "        &sector[20..],", "        &sector[20..sector.len().min(4096)],")],
    demo="""use crate::decompile::sector::get_sector;
pub fn demo() { for n in [20usize, 21, 100, 4096, 4097, 8192] { let s: Vec<u8> = (0..n).map(|i| i as u8).collect(); assert_eq!(get_sector(&s).payload, &s[20..]); } }
""")
bug(id="c10c", property="C10", needs="a variable whose name ends in white space", breaks="the white space is cut off",
    edits=[("src/decompile/decompiler.rs", "result.push_str(&name);", "result.push_str(name.trim_end());")],
    mount="decompile/decompiler.rs", inner=r'''
pub fn demo() {
    for t in ["", "a", "$x", "a b", "a ", "\t"] {
        let mut b = vec![0x1au8, t.len() as u8];
        b.extend(t.bytes().map(|c| c ^ 0x5a));
        b.push(0x25);
        assert_eq!(decompile_calculation(&b), format!("{t}+"));
    }
}
''', demo='pub fn demo() { crate::decompile::decompiler::vp_inner::demo() }\n')
bug(id="c20d", property="C20", needs="two value lists of the same name", breaks="only the first is kept",
    edits=[("src/compile/parser.rs", "                    ret.value_lists.insert(ret.value_lists.len() + 1, value_list);", "                    if !ret.value_lists.values().any(|l| l.list_name == value_list.list_name) {\n                        ret.value_lists.insert(ret.value_lists.len() + 1, value_list);\n                    }")],
    demo="""pub fn demo() {
 let f = crate::compile::parser::Parser::new(crate::compile::lexer::tokenize("value_list a : end value_list; value_list b : end value_list; value_list a : end value_list; ")).parse_program().unwrap();
 assert_eq!((1..=3).map(|i| f.value_lists.get(&i).map_or("", |l| l.list_name.as_str())).collect::<Vec<_>>(), ["a", "b", "a"]);
}
""")
bug(id="c25c", property="C25", needs="a string constant that ends in a backslash, followed by a comma", breaks="the backslash is taken to escape the closing quote, so the arguments run together",
    edits=[("src/burn_script/lexer.rs", "                                in_string = !in_string;", "                                in_string = !in_string || buffer.ends_with('\\\\');")],
    demo=r"""use crate::burn_script::lexer::Lexer;
pub fn demo() {
  for a in ["x", "\"a\"", "\"a\\b\"", "\"a\\\"", "\\"] {
    let t: Vec<_> = Lexer::new(format!("set_variable({a}, 1);")).get_tokens().into_iter().map(|t| t.value).collect();
    assert_eq!(t[1..3], [a.to_string(), "1".to_string()]);
  }
}
""")
bug(id="c26d", property="C26", needs="a quotation mark of another kind inside a string literal", breaks="a string may be closed by a typographic quotation mark",
    edits=[("src/compile/lexer.rs", "            if c == '\"' {\n", "            if c == '\"' || c == '\\u{201d}' {\n")],
    demo="""use crate::compile::lexer::tokenize;
pub fn demo() {
 for t in ["", "a", "'a'", "\\u{201c}a\\u{201d} b"] {
   let k: Vec<_> = tokenize(&format!("table t : x = \\"{t}\\" ; ")).into_iter().map(|t| t.text).collect();
   assert_eq!(k[5], t);
 }
}
""")
bug(id="c28d", property="C28", needs="a line break of two characters inside a string literal or an argument", breaks="line breaks are unified before lexing, inside strings as well",
    edits=[("src/compile/compiler.rs", "    let tokens = lexer::tokenize(&code);", "    let code = code.replace(\"\\r\\n\", \"\\n\");\n    let tokens = lexer::tokenize(&code);")],
    demo="""use crate::compile::compiler::compile_burn;
pub fn demo() {
  let f = compile_burn("script : [\\r\\n define a(x) {\\r\\n set_variable(x, \\"one\\r\\ntwo\\");\\r\\n } ]\\r\\n");
  assert_eq!(f.scripts[&1].instructions[0].switches, ["x", "\\"one\\r\\ntwo\\""]);
}
""")
bug(id="c19d", property="C19", needs="a parameter whose name begins with dollar signs", breaks="the dollar signs are cut off",
    edits=[("src/burn_script/parser.rs", "                                tmp.arguments.push(t.value.clone());", "                                tmp.arguments.push(t.value.trim_start_matches('$').to_string());")],
    demo="""use crate::burn_script::{lexer::Lexer, parser::Parser};
pub fn demo() {
  let s = Parser::new(Lexer::new("define a(x, $x, $$y, z$) { exit_script(1); }".to_string()).get_tokens()).parse().unwrap();
  assert_eq!(s[0].arguments, ["x", "$x", "$$y", "z$"]);
}
""")
bug(id="c29a", property="C29", needs="table numbers with gaps between them", breaks="the highest table number is stored as the number of tables",
    edits=[("src/compile/assembler.rs", "&put_int(self.file.tables.len())", "&put_int(self.file.tables.keys().max().map_or(0, |n| *n))")],
    mount="compile/assembler.rs", inner=r'''
use crate::chunk::get_chunk_from_code;
fn count(ids: &[usize]) -> Vec<u8> {
    let mut f = crate::file::FmpFile::new();
    for i in ids { f.tables.insert(*i, crate::component::FMComponentTable::new()); }
    let mut a = Assembler::new(&f);
    a.assemble_fmp12(&f);
    let (mut off, mut path) = (8212, vec![]);
    while off < 12288 {
        let c = get_chunk_from_code(&a.buffer, &mut off, &mut path, 8192).unwrap();
        if path == ["3", "16", "1"] && c.ref_simple == Some(4) { return c.data.unwrap().to_vec(); }
    }
    panic!("no count");
}
pub fn demo() {
    assert_eq!(count(&[]), [0, 0, 0, 0]);
    assert_eq!(count(&[1, 2, 3]), [0, 0, 0, 3]);
    assert_eq!(count(&[1, 5, 9]), [0, 0, 0, 3]);
}
''', demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c29b", property="C29", needs="a table occurrence with a number of 65536 or more", breaks="only the low half of the number is stored",
    edits=[("src/compile/assembler.rs", "self.emit_simple_data_1b(&put_int(*to.0));", "self.emit_simple_data_1b(&put_int(*to.0 & 0xffff));")],
    mount="compile/assembler.rs", inner=r'''
use crate::chunk::get_chunk_from_code;
pub fn demo() {
    for n in [0usize, 1, 255, 256, 65535, 65536, 0x1_0001, 0x0102_0304] {
        let mut f = crate::file::FmpFile::new();
        f.table_occurrences.insert(n, crate::component::FMComponentTableOccurence::new());
        let mut a = Assembler::new(&f);
        a.assemble_fmp12(&f);
        let (mut off, mut path, mut got) = (8212, vec![], vec![]);
        while off < 12288 {
            let c = get_chunk_from_code(&a.buffer, &mut off, &mut path, 8192).unwrap();
            if path == ["3", "17", "1", "3"] && c.ctype == crate::chunk::ChunkType::DataSimple { got.push(c.data.unwrap().to_vec()); }
        }
        assert_eq!(got, [(n as u32).to_be_bytes().to_vec()]);
    }
}
''', demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')
bug(id="c29c", property="C29", needs="two tables whose names are encoded alike, such as names that differ in case only", breaks="the second of them is left out of the list of names",
    edits=[("src/compile/assembler.rs", "        for t in &self.file.tables {\n            let mut encoding", "        let mut done = std::collections::HashSet::new();\n        for t in &self.file.tables {\n            if !done.insert(t.1.table_name.to_lowercase()) { continue; }\n            let mut encoding")],
    mount="compile/assembler.rs", inner=r'''
use crate::chunk::get_chunk_from_code;
pub fn demo() {
    for names in [["a", "b"], ["a", "ab"], ["a", "A"], ["x", "x"]] {
        let mut f = crate::file::FmpFile::new();
        for (i, n) in names.iter().enumerate() {
            let mut t = crate::component::FMComponentTable::new();
            t.table_name = n.to_string();
            f.tables.insert(i + 1, t);
        }
        let mut a = Assembler::new(&f);
        a.assemble_fmp12(&f);
        let (mut off, mut path, mut got) = (8212, vec![], vec![]);
        while off < 12288 {
            let c = get_chunk_from_code(&a.buffer, &mut off, &mut path, 8192).unwrap();
            if path == ["3", "16", "1", "1"] && c.ctype == crate::chunk::ChunkType::RefLong { got.push(c.data.unwrap()[2]); }
        }
        got.sort();
        assert_eq!(got, [1, 2]);
    }
}
''', demo='pub fn demo() { crate::compile::assembler::vp_inner::demo() }\n')

# ---- fourth batch ----
bug(id="c10d", property="C10", needs="a number of 128 or more in a calculation", breaks="the number's byte is read as signed",
    edits=[("src/decompile/decompiler.rs", "result.push_str(&cur.unwrap().to_string());", "result.push_str(&(*cur.unwrap() as i8).to_string());")],
    mount="decompile/decompiler.rs", inner=r'''
pub fn demo() {
    for n in [0u8, 1, 127, 128, 200, 255] {
        let mut b = vec![0x10u8];
        b.extend((0..19).map(|i| if i == 8 { n } else { 0 }));
        b.push(0x25);
        assert_eq!(decompile_calculation(&b), format!("{n}+"));
    }
}
''', demo='pub fn demo() { crate::decompile::decompiler::vp_inner::demo() }\n')
bug(id="c19e", property="C19", needs="blocks nested more than 32 deep", breaks="the blocks inside are closed by the wrong kind of step, or end the script early",
    edits=[("src/burn_script/parser.rs", "                                punc_stack.push(Instruction::Loop);", "                                if punc_stack.len() < 32 {\n                                    punc_stack.push(Instruction::Loop);\n                                }")],
    demo=r"""use crate::burn_script::compiler::BurnScriptCompiler;
pub fn demo() {
  for n in [0usize, 1, 5, 32, 33, 60] {
    let s = BurnScriptCompiler::compile_burn_script(&format!("define f(x) {{ {} exit_script(1); {} beep(); }} define g(y) {{ beep(); }}", "loop { ".repeat(n), "} ".repeat(n)).replace("beep", "exit_script").replace("exit_script()", "exit_script(2)"));
    assert_eq!(s.len(), 2);
    assert_eq!(s[0].instructions.len(), 2 * n + 2, "{n}");
  }
}
""")
bug(id="c20e", property="C20", needs="a relationship of a table occurrence with itself", breaks="the second name gets a suffix",
    edits=[("src/compile/parser.rs", "relationship.table2_name = n.text.clone();", "relationship.table2_name = if n.text == relationship.table1_name { format!(\"{} 2\", n.text) } else { n.text.clone() };")],
    demo="""use crate::compile::{lexer::tokenize, parser::Parser};
pub fn demo() {
 let f = Parser::new(tokenize("relationship : a : b , end relationship; relationship : a : a , end relationship; relationship : c : a , end relationship; ")).parse_program().unwrap();
 let r: Vec<_> = (1..=3).map(|i| f.relationships.get(&i).map_or(("", ""), |r| (r.table1_name.as_str(), r.table2_name.as_str()))).collect();
 assert_eq!(r, [("a", "b"), ("a", "a"), ("c", "a")]);
}
""")
bug(id="c24g", property="C24", needs="a sector in the chain whose deleted flag is set", breaks="it is passed over, so the components stored in it are missing",
    edits=[("src/decompile/decompiler.rs", "        let mut path = Vec::<String>::new();\n        offset += 20;", "        if sectors[idx].deleted {\n            idx = sectors[idx].next;\n            continue;\n        }\n        let mut path = Vec::<String>::new();\n        offset += 20;")],
    demo=C24_FILE.replace("    let path = std::path::PathBuf", "    if DELETED.load(std::sync::atomic::Ordering::SeqCst) { buf[4096 * 3] = 1; }\n    let path = std::path::PathBuf") + r'''
static DELETED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn demo() {
    for d in [false, true] {
        DELETED.store(d, std::sync::atomic::Ordering::SeqCst);
        let f = file(5, &[(2, layout(1, "a", 1)), (3, layout(2, "b", 2)), (4, layout(3, "c", 3))]);
        assert_eq!(f.layouts.len(), 3);
        assert_eq!(f.layouts[&2].layout_name, "b");
    }
}
''')
bug(id="c24h", property="C24", needs="a field description longer than 120 characters", breaks="the rest of the description is missing",
    edits=[("src/decompile/decompiler.rs", "                                        .field_description = s\n", "                                        .field_description = s.chars().take(120).collect()\n")],
    demo=C24_FILE + r'''
pub fn demo() {
    for n in [0usize, 1, 119, 120, 121, 250] {
        let d = "d".repeat(n);
        let f = file(4, &[(2, [dirs(&[129, 3, 5, 7]), rec(16, &mask("f")), rec(3, &mask(&d)), pop(4)].concat())]);
        assert_eq!(f.tables[&1].fields[&7].field_description, d);
    }
}
''')
bug(id="c25d", property="C25", needs="a number of 1e39 or more", breaks="numbers too large for single precision are taken for names",
    edits=[("src/burn_script/lexer.rs", "let n = b.parse::<f64>();", "let n = b.parse::<f32>();")],
    demo=r"""use crate::burn_script::lexer::Lexer;
use crate::burn_script::tokens::*;
pub fn demo() {
  for a in ["1", "1.5", "1e38", "1e39", "123456789012345678901234567890123456789012345", "1e300"] {
    assert_eq!(Lexer::new(format!("let x = {a};")).get_tokens()[3], Token::with_value(TokenType::NumericLiteral, a));
  }
}
""")
bug(id="c25e", property="C25", needs="256 brackets open at once inside an argument", breaks="the depth wraps around, so the argument is cut there",
    edits=[("src/burn_script/lexer.rs", "                                stack += 1;\n", "                                stack = (stack + 1) % 256;\n")],
    demo=r"""use crate::burn_script::lexer::Lexer;
pub fn demo() {
  for n in [0usize, 1, 100, 255, 256, 300] {
    let a = format!("{}x,y{}", "(".repeat(n), ")".repeat(n));
    let t: Vec<_> = Lexer::new(format!("f(({a}), 1);")).get_tokens().into_iter().map(|t| t.value).collect();
    assert_eq!(t[1..3], [format!("({a})"), "1".to_string()]);
  }
}
""")
bug(id="c26e", property="C26", needs="a number written with an exponent or in capitals", breaks="it is refused as a name that starts with a digit",
    edits=[("src/compile/lexer.rs", "                let n = b.parse::<f64>();", "                let n = if b.contains('e') { \"\" } else { b }.parse::<f64>();")],
    demo="""use crate::compile::lexer::tokenize;
pub fn demo() {
 for t in ["1", "10.5", "1e3", "2.5e-1"] {
   let k: Vec<_> = tokenize(&format!("table t : x = {t} ; ")).into_iter().map(|t| t.text).collect();
   assert_eq!(k[5], t);
 }
}
""")
bug(id="c28e", property="C28", needs="program text of more than 65536 characters", breaks="the text behind that is not read",
    edits=[("src/compile/lexer.rs", "let mut lex_iter = code.chars().into_iter().enumerate().peekable();", "let mut lex_iter = code.chars().into_iter().take(1 << 16).enumerate().peekable();")],
    demo="""use crate::compile::compiler::compile_burn;
pub fn demo() {
  for n in [1usize, 100, 1300, 1600, 3000] {
    let f = compile_burn(&(0..n).map(|i| format!("table name_of_a_table_{:05} : end table; ", i % 99999)).collect::<String>());
    assert_eq!(f.tables.len(), n);
    assert_eq!(f.tables[&n].table_name, format!("name_of_a_table_{:05}", n - 1));
  }
}
""")
bug(id="c27c", property="C27", needs="an assert step in a script stored in a record", breaks="the step is missing",
    edits=[("src/decompile/decompiler.rs", "                                for ins in instrs {\n                                    if ins.len() > 21 {\n                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];\n                                    if oc.is_some() {", "                                for ins in instrs {\n                                    if ins.len() > 21 {\n                                    let oc = &INSTRUCTIONMAP[ins[21] as usize];\n                                    if oc.is_some() && ins[21] < 255 {")],
    demo=C24_FILE + r'''
pub fn demo() {
    for op in [68u8, 211, 141, 255] {
        let code = script_step(op, 1);
        let f = file(4, &[(2, [script_name(3, "main"), dirs(&[17, 5, 3]), rec(4, &code), pop(3)].concat())]);
        let got: Vec<usize> = f.scripts[&3].instructions.iter().map(|s| s.opcode.clone() as usize).collect();
        assert_eq!(got, [op as usize]);
    }
}
''')
bug(id="c09c", property="C09", needs="a schema with more than 40 scripts", breaks="the last sector of the chain points on to a sector that does not exist",
    edits=[("src/compile/assembler.rs", "(self.idx+12) as usize, 0_u32.to_be_bytes());", "(self.idx+12) as usize, ((schema.scripts.len() / 41) as u32 * 5).to_be_bytes());")],
    demo="""use crate::component::FMComponentScript;
use crate::file::FmpFile;
pub fn demo() {
  for n in [0usize, 1, 40, 41, 90] {
    let mut f = FmpFile::new();
    for k in 0..n { f.scripts.insert(k + 1, FMComponentScript::new()); }
    let mut a = crate::compile::assembler::Assembler::new(&f);
    a.assemble_fmp12(&f);
    a.emit_assembly("demo_output");
    let b = std::fs::read("demo_output.fmp12").unwrap();
    std::fs::remove_file("demo_output.fmp12").unwrap();
    let next = |k: usize| u32::from_be_bytes(b[k * 4096 + 8..k * 4096 + 12].try_into().unwrap());
    assert_eq!((next(2), next(3), next(4)), (3, 4, 0), "{n}");
  }
}
""")
