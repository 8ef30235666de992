import json
P=[]
def p(id,title,stmt,over,qt,why,files,syms):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=s,where=files[0] if len(files)==1 else ', '.join(files)) for s in syms],hook_needed=None)))
p("C01","Fixed-width integers survive encoding and decoding",
 "Every unsigned integer below 2^32 is encoded as exactly four bytes, most significant byte first, and decoding those four bytes gives the integer back. Decoding one, two or four bytes gives their big-endian value for every byte pattern, and any other width gives 0. Neither direction panics or overflows in that range.",
 ["inputs"],"all integers below 2^32 and all byte slices","Tests sample two integers (67 and 1024); the ranges where a carry, width or index slip shows are never reached.",
 ["src/encoding_util.rs"],["get_int","put_int"])
p("C02","Directory/key path integers survive encoding and decoding",
 "A path integer below 128 is one byte holding its value; one from 128 up is two bytes, the first marked with the high bit, and decoding what was encoded gives the original integer back. Decoding a single byte always gives that byte's value, and slices that are neither one nor two bytes long give 0.",
 ["inputs"],"all path integers the two-byte form can carry and all byte slices","Tests pin seven sample values; the 128 boundary, the high byte and every other value are untested.",
 ["src/encoding_util.rs"],["get_path_int","put_path_int"])
p("C03","Text masking is a lossless involution",
 "Masking text for the file yields one byte per UTF-8 byte of the text, each combined with the fixed mask 0x5A by exclusive-or, and unmasking bytes that came from valid text returns exactly that text, for every string. Unmasking bytes that do not form valid UTF-8 yields the fixed placeholder text and never panics.",
 ["inputs"],"all strings and all byte slices","Tests unmask five short ASCII words and never mask; non-ASCII text, the placeholder path and the composition of both directions are untested.",
 ["src/encoding_util.rs"],["fm_string_encrypt","fm_string_decrypt"])
p("C04","Two-byte name encoding is faithful for the supported alphabet",
 "Encoding a name produces exactly two bytes per character in order, using the table entry of the lower-cased character and 0,0 for a character outside the table; decoding a byte pair gives the table's character for that pair and '?' for a pair outside it. For every text over the supported alphabet, encoding and then decoding gives the lower-cased text back, and no two supported characters share a code.",
 ["inputs"],"all texts, all characters, all byte pairs","One test, which aborts on the pinned commit, samples one alphabet string; nothing covers the pairs outside the table, letter case, or the length and memory safety of the result.",
 ["src/dbcharconv.rs"],["encode_char","decode_char","encode_text","decode_bytes"])
p("C05","A chunk is decoded to exactly the bytes its opcode designates",
 "For every opcode the format knows, decoding a chunk reports the right kind, the opcode with its pop-marker bits removed, the right short or long reference, segment number, and a payload that is exactly the slice of input that the opcode's length rule designates - no byte more, fewer or elsewhere. An unknown opcode is reported as an error.",
 ["inputs"],"all byte strings, offsets and opcodes that leave room for the chunk","No test decodes a chunk; 30 opcodes times operand lengths cannot be sampled by hand.",
 ["src/chunk.rs"],["get_chunk_from_code"])
p("C06","Chunk decoding always advances and keeps the directory path exact",
 "Whenever a chunk is decoded successfully the read position moves forward to exactly the end of that chunk (so decoding a stream terminates and chunks never overlap or leave gaps), and never past the chunk's operands. The current directory path changes only by the chunk's own effect: a push appends exactly the decoded directory number, a pop (or a pop marker on any opcode, applied after the chunk's own effect) removes exactly the last element, popping an empty path leaves it empty, everything else leaves it untouched; the chunk carries the resulting path.",
 ["inputs","histories"],"all byte strings, offsets, starting paths and opcode sequences","No test decodes a chunk, and path drift only shows over sequences of chunks.",
 ["src/chunk.rs"],["get_chunk_from_code"])
p("C07","Sector headers are read from their fixed positions",
 "A 4096-byte sector (any slice of at least 20 bytes) is read as: deleted iff byte 0 is non-zero, level from byte 1, previous and next sector numbers from the big-endian four-byte fields at 4 and 8, and a payload that is exactly everything from byte 20 on, with no chunk yet decoded.",
 ["inputs"],"all sectors","No test reads a sector.",
 ["src/decompile/sector.rs","src/encoding_util.rs"],["get_sector","get_int"])
p("C08","What the assembler emits, the chunk reader reads back",
 "Each primitive the assembler emits - key/value with a short key, key/value with a two-byte key, long-key value, counted data, directory push and pop, no-op - is laid down at the write position as a well-formed chunk which the chunk reader decodes to the same key, value or directory, with the write position moved exactly past it, the buffer length kept and every other byte untouched. This holds for every one-byte key, every two-byte key and directory number that the two-byte path integer carries without loss, and every value whose length fits the one-byte length field (counted data being non-empty).",
 ["inputs"],"all keys, values and directory numbers representable in the format","One test samples four opcode selections; no test decodes anything that was emitted, and odd-length or empty values are never tried.",
 ["src/compile/assembler.rs","src/chunk.rs","src/encoding_util.rs"],["emit_noop","emit_simple_kv","emit_simple_kv_e","emit_long_kv","emit_simple_data_1b","push_directory","pop_directory","calc_small_kv_ins"])
p("C09","An assembled file is whole sectors with a well-formed sector chain",
 "A sector appended to a file under assembly is 4096 zero bytes added at the end of the file, with the write position set to that sector's start and everything before it unchanged. Every directory section the assembler writes (initial metadata, layouts, themes, scripts, security, value lists, fonts, toolbars) closes each directory it opens, so it leaves the reader's directory path as it found it; the table metadata section leaves exactly directory 3 open and the relationship section that follows closes exactly that. An assembled file is exactly five 4096-byte sectors whose next-sector fields form the chain 2, 3, 4, end, and the content of sector 2 is a well-formed sequence of chunks that ends with no directory open and only zeros after it, for every schema whose sections fit the sector.",
 ["inputs","programs"],"all assembler states and all schemas whose section fits the sector","No test assembles a file.",
 ["src/compile/assembler.rs"],["append_blank_chunk","assemble_fmp12","emit_table_metadata","emit_relationship_data","emit_script_data","emit_layout_data","emit_theme_data","emit_security_data","emit_value_list_data","emit_font_data","emit_toolbar_data"])
p("C10","Calculation bytecode is rendered token by token in order",
 "Rendering a stored calculation yields the concatenation, in order, of the text of each token: operators, parentheses and function names by their code, numbers by their decimal value, string constants unmasked between double quotes and variables unmasked - for every token sequence and for any text content. Unknown codes contribute nothing and do not disturb the tokens around them.",
 ["inputs","programs"],"all well-formed calculation bytecodes","No test renders bytecode except through one sample file; non-ASCII string constants are never covered.",
 ["src/decompile/decompiler.rs"],["decompile_calculation"])
p("C11","Creating a record keeps every table rectangular and selects the new record",
 "Creating a record appends exactly one empty value to every field of the current table and to nothing else, so all fields of a table always hold the same number of records. The new record is appended to the found set of every table occurrence based on that table, which then has it as its current record, and occurrences of other tables keep their found set and current record.",
 ["inputs","histories"],"all databases and all sequences of operations","Tests create records in one sample schema with a single occurrence per assertion; other tables and occurrences are never inspected.",
 ["src/testing/database.rs"],["create_record","add_blank_record","get_records_n"])
p("C12","Record navigation stays inside the found set",
 "Going to the next, previous, first, last or a numbered record of a non-empty found set always leaves the current position inside the found set: next and previous move by exactly one and stop at the ends, first and last go to the ends, and a number past the end goes to the last record. On an empty found set navigation does nothing harmful (no panic). Only the current occurrence's position changes.",
 ["inputs","histories"],"all found sets, positions and sequences of navigation steps","Tests walk one three-record found set; empty sets, ends and other occurrences are not exercised.",
 ["src/testing/database.rs"],["goto_record","goto_next_record","goto_previous_record","goto_first_record","goto_last_record"])
p("C13","Found sets hold exactly the records asked for",
 "Showing all records gives the current occurrence the found set 0,1,..,n-1 of every record of its table, in order. Applying a non-empty find result gives it exactly that list, in that order, with its first record current; applying an empty result falls back to all records. No other occurrence and no table data changes.",
 ["inputs","histories"],"all databases, occurrences and result lists","Tests perform one find in one table and never inspect the other occurrences.",
 ["src/testing/database.rs"],["update_found_set","reset_found_set"])
p("C14","Field access reads and writes the addressed value only",
 "Reading a field of the current record returns the value stored for the named field at the current found-set position of the addressed occurrence; obtaining it for writing gives access to that same value and to no other. When there is no current record an error (or an empty value) is returned and nothing changes.",
 ["inputs","histories"],"all databases, occurrence and field names, positions","Tests read back single values they have just written; they cannot show that no other cell is affected or that the right cell is chosen when positions and record numbers differ.",
 ["src/testing/database.rs"],["get_current_record","get_current_record_field","get_record_by_field","get_current_record_by_field_mut","get_current_record_by_table_field","get_current_record_by_table_field_mut","get_found_set_record_field"])
p("C15","The relation graph finds a valid shortest path, and only when one exists",
 "Adding a relation between two table occurrences records it in both directions exactly once and keeps every relation recorded before. A path query between two different occurrences terminates and returns a path that starts and ends at the two occurrences, follows only recorded relations and is shortest; it returns nothing exactly when the occurrences are not connected.",
 ["inputs","histories"],"all graphs and all pairs of occurrences","The one test has six relations and three queries; cycles, shortest-ness and completeness over all graphs cannot be sampled.",
 ["src/testing/relation_mgr.rs"],["add_node","add_relation","get_path"])
p("C16","Related-record lookup follows the relationship's own comparison",
 "A lookup through relationships returns the target field of the first record (in record order) of the target table that is reached from the current record by following each relationship on the path, where a record is related exactly when its join field satisfies the relationship's comparison (equal, not equal, less, less or equal, greater, greater or equal, any) against the join field of the record before it. It returns an error when there is no path or no related record, and never changes any data.",
 ["inputs","histories"],"all databases, relationship graphs, comparisons and values","Tests cover equality joins on one sample; other comparisons and chains of relationships are not covered.",
 ["src/testing/database.rs","src/testing/relation_mgr.rs"],["get_related_record_field"])
p("C17","Layouts resolve to the table occurrence they were mapped to",
 "Looking up a layout name returns the table occurrence most recently mapped to exactly that name and nothing for a name never mapped; mapping one name does not affect any other.",
 ["inputs","histories"],"all names and mapping sequences","No test queries the mapping directly.",
 ["src/testing/layout_mgr.rs"],["add_mapping","lookup"])
p("C18","Each test starts from a clean interpreter state",
 "Loading a test makes it the current one with a passing verdict, execution at the first step of its own script, and no call frame, variable, open loop or block, pending find criterion, find mode or taken branch left over from an earlier test, whatever happened before. So no earlier test - failed or passed - can prevent a later test from being executed or decide its verdict through the interpreter's control state.",
 ["histories","programs"],"all sequences of tests","Tests run single-test files; the state a failing or unfinished test leaves behind is never followed by another test.",
 ["src/testing/test.rs"],["load_test","run_tests"])
p("C19","Parsed scripts keep every step, argument and block in source order",
 "Parsing a well-formed script yields its name, its parameters and its steps in source order, each step with exactly its own arguments in order. Every conditional and loop block is closed by the matching end step at the position of its closing bracket, at any nesting depth, with else and else-if branches kept inside their conditional, and scripts following one another do not influence each other.",
 ["inputs","programs"],"all well-formed token streams at any nesting depth","One test parses one script with a single nesting shape.",
 ["src/burn_script/parser.rs"],["parse"])
p("C20","Every declaration of a program appears in the compiled file",
 "Compiling a well-formed program yields a file with exactly one table, relationship, value list, table occurrence and test for each declaration of that kind, carrying its declared names, in order of declaration, with none lost or overwritten. A declaration that lacks its keyword, its name or colon, the `end` keyword matching its kind, the semicolon after that, or, for a script, its colon or a bracket, is rejected with an error.",
 ["inputs","programs"],"all well-formed programs, any number and order of declarations","Tests compile one or two declarations of a kind; interactions between several declarations of different kinds are not covered.",
 ["src/compile/parser.rs"],["parse_program"])
p("C21","The test database mirrors the schema it is generated from",
 "Generating the database from a schema gives every table and field its declared name at its declared number with no records, every occurrence its declared table and an empty found set, resolves every occurrence name to its number, and records every relationship from both sides with the join fields exchanged.",
 ["inputs"],"all schemas","Tests generate the database from two sample schemas and look at a few names.",
 ["src/testing/database.rs"],["generate_from_fmp12"])
p("C22","Script control flow executes the branches and iterations the blocks say",
 "Executing a script runs exactly the branch of each conditional whose condition is the first to hold, repeats a loop body until its exit condition holds and continues after the matching end step, at any nesting depth.",
 ["programs","histories"],"all well-nested scripts","Tests run scripts with at most one level of each construct.",
 ["src/testing/test.rs"],["step"])
p("C23","Calculations follow operator precedence and evaluate to the right value",
 "A calculation is parsed so that multiplication and division bind tighter than addition and subtraction, those tighter than concatenation, and that tighter than comparison, with equal operators grouped to the left, and its value is the arithmetic, textual or logical result of that tree.",
 ["inputs","programs"],"all calculations","Tests evaluate a dozen sample calculations.",
 ["src/testing/calc_eval.rs","src/testing/test.rs"],["Parser::parse","evaluate","eval_calculation"])
p("C24","Decompiling a file recovers the components it stores under their numbers",
 "Decompiling a well-formed database file visits the sectors of its chain in order and applies every record to the component that the directory path names: the result has each table, field, table occurrence, relationship, layout, script and data source whose directory the file contains, under the number stored in its directory, with the name, descriptions, table, comparison, field numbers, location and script steps that its own records give. Components already recovered are never lost, and a directory met again or records of other directories leave them as they are. Script steps come in stored order with opcode, step id and arguments, whether the code is stored in one record or in numbered segments (joined by segment number); an argument record goes to the step with its id; steps with unknown opcodes and incomplete trailing records are skipped.",
 ["inputs"],"all byte strings that form a file in the format's terms (every chunk decodes within the file, records complete)","Tests decompile a handful of sample files.",
 ["src/decompile/decompiler.rs","src/chunk.rs","src/decompile/sector.rs","src/component.rs"],["decompile_fmp12_file","assemble_script","step_with_id","get_chunk_from_code","get_sector"])
p("C25","Script lexing keeps every name, number and argument text, in order",
 "The script lexer turns script text into tokens in source order: keywords, names and numbers each with their exact text, punctuation, and one- or two-character operators, whatever white space or punctuation separates them. A parenthesised argument list gives one token per argument carrying its exact text without leading blanks; commas and parentheses inside a string literal or inside nested parentheses do not split or end an argument.",
 ["inputs","programs"],"all sequences of words, punctuation, operators and argument lists, with any white space","One test lexes one script; combinations of neighbouring elements, nesting and string literals in arguments are unbounded.",
 ["src/burn_script/lexer.rs"],["get_tokens"])
p("C26","Schema lexing keeps every name, number, string and embedded script, in order",
 "The schema lexer turns source text into tokens in source order: keywords, names and numbers each with their exact text, punctuation, string literals with exactly the characters between their quotes, and embedded script blocks and calculations with their exact text after leading white space, each between its bracket tokens. What one element contains never changes how the next one is read.",
 ["inputs","programs"],"all sequences of words, punctuation, operators, strings and embedded blocks, with any white space","Two tests lex small schemas; neighbouring elements and embedded text are unbounded.",
 ["src/compile/lexer.rs"],["tokenize"])
p("C27","Every opcode byte stands for the instruction with that number",
 "Every byte value has an entry in the instruction map: either the one instruction with that number, or none if no instruction has it. Every instruction is found at its own number, and different instructions have different numbers. Hence the steps read from a script's stored code, whether from one record or from segments, are exactly the instructions with the stored numbers, in stored order, with only unknown numbers left out.",
 ["inputs"],"all 256 opcodes and all script code","No test looks at the map; sample files use a few of its 256 entries.",
 ["src/fm_script_engine/fm_script_engine_instructions.rs","src/decompile/decompiler.rs"],["INSTRUCTIONMAP","Instruction","assemble_script","decompile_fmp12_file"])
p("C28","Program text compiles to exactly what it declares, scripts included",
 "Compiling the text of a well-formed program gives a file with exactly the tables, relationships, value lists, table occurrences, scripts and tests written in it, numbered in order of declaration, where every script and every test's script has exactly the name, parameters, steps, block nesting and argument texts written in its block; compiling script text on its own likewise gives exactly the scripts written in it, in order. White space between the elements of the text changes nothing, and characters inside string literals and arguments are kept as written.",
 ["inputs","programs"],"all well-formed program and script texts, of any size and nesting","Three tests compile small programs; the interplay of the two lexers and two parsers over all texts is not sampled.",
 ["src/compile/compiler.rs","src/compile/lexer.rs","src/compile/parser.rs","src/burn_script/compiler.rs","src/burn_script/lexer.rs","src/burn_script/parser.rs"],["compile_burn","compile_burn_script","tokenize","parse_program","get_tokens","parse"])
p("C29","An assembled file lists every table and occurrence of its schema",
 "Read back chunk by chunk, the content of an assembled file lists exactly what the schema has: for every table one name record with the encoded name and the table's directory number, one number record and one directory of that number, and the number of tables; for every table occurrence one record with its encoded name and one with its number; and the low byte of the number of layouts and of scripts. Nothing else stands in those directories and only zeros follow. This holds for every schema whose table numbers are below 256, whose names fit a one-byte length and whose lists fit the sector, in whatever order the tables are met.",
 ["inputs"],"all schemas that fit the format, and every iteration order of their tables","One test looks at an opcode choice; no test reads back what was assembled.",
 ["src/compile/assembler.rs","src/chunk.rs","src/encoding_util.rs","src/dbcharconv.rs"],["assemble_fmp12","emit_table_metadata","emit_relationship_data","emit_layout_data","emit_script_data","emit_long_kv","emit_simple_data_1b","emit_simple_kv"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
