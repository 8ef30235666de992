From 098ca7e7662c64182e125426d2552a8113ccb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 01/26] fix: put_int fills all four bytes instead of indexing
 below zero for n >= 2^24

---
 src/encoding_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoding_util.rs b/src/encoding_util.rs
index d889858..cd7ab35 100644
--- a/src/encoding_util.rs
+++ b/src/encoding_util.rs
@@ -31,12 +31,12 @@ pub fn get_int(bytes: &[u8]) -> usize {
 
 pub fn put_int(mut n: usize) -> Vec<u8> {
     let mut res = vec![0, 0, 0, 0];
-    let mut idx = 3;
+    let mut idx = 4;
     while n > 0 {
         let cur = n % 256;
         n /= 256;
-        res[idx] = cur as u8;
         idx -= 1;
+        res[idx] = cur as u8;
     }
     return res;
 }
-- 
2.43.0


From e2c610bc4e2d01258d3db29b702a71cdef8e6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 02/26] fix: encode_text writes the byte pairs instead of
 reinterpreting a vector of pairs

---
 src/dbcharconv.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dbcharconv.rs b/src/dbcharconv.rs
index 9c04a41..49afca2 100644
--- a/src/dbcharconv.rs
+++ b/src/dbcharconv.rs
@@ -35,15 +35,13 @@ pub fn encode_char(ch: char) -> (u8, u8) {
 }
 
 pub fn encode_text(text: &str) -> Vec<u8> {
-    let mut res = text.chars()
-        .map(|c| encode_char(c))
-        .collect::<Vec<(u8, u8)>>();
-
-    unsafe {
-        res.set_len(res.len() * 2);
-        std::mem::transmute(res)
+    let mut res = Vec::new();
+    for c in text.chars() {
+        let (high, low) = encode_char(c);
+        res.push(high);
+        res.push(low);
     }
-
+    res
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0b8b3369a0389933f664fdfde8e70dfe23a33b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 03/26] fix: opcode 0x1F reads its data length after its
 reference, not inside it

---
 src/chunk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index c96b2ed..85abafa 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -218,6 +218,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             let ref_len = code[*offset] as usize;
             *offset += 1;
             ref_data = Some(&code[*offset..*offset+ref_len]);
+            *offset += ref_len;
             let len = get_int(&code[*offset..*offset+2]);
             *offset += 2;
             data = Some(&code[*offset..*offset+len]);
-- 
2.43.0


From 1f2db3bbcf64938d7acea339fdd6345a9075e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 04/26] fix: opcode 0x0F without its 0x80 marker is an error
 instead of a chunk that consumes nothing

---
 src/chunk.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index 85abafa..53532a5 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -140,6 +140,8 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
                 *offset += 2;
                 data = Some(&code[*offset..*offset+len]);
                 *offset += len;
+            } else {
+                return Err("Invalid Opcode for Chunk.");
             }
         },
         0x10 => {
-- 
2.43.0


From 0ff333e93bdf83f8a6e5fa9d73cbc5be40cfc34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 05/26] fix: reporting an unknown opcode at the start of a
 sector no longer divides by zero

---
 src/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 53532a5..2d5307e 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -282,7 +282,7 @@ pub fn get_chunk_from_code<'a>(code: &'a[u8], offset: &mut usize, path: &mut Vec
             *offset += 1;
         }
         _ => {
-            eprintln!("Unknown code @ B:{}, O:{}: {:x}", (4096 / (*offset - local)), local, chunk_code);
+            eprintln!("Unknown code @ B:{}, O:{}: {:x}", local / 4096, *offset, chunk_code);
             return Err("Invalid Opcode for Chunk.");
         }
     };
-- 
2.43.0


From 17f86d5191bf8ab9d0f1984b1918c5c96fde8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 06/26] fix: values of odd or zero length get the counted
 key/value opcode, not one that implies another length

---
 src/compile/assembler.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index a7f1a1b..c78df74 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -30,13 +30,11 @@ impl<'a> Assembler<'a> {
 
     /* Only used when value is not a known datatype */
     pub fn calc_small_kv_ins(&self, val: &[u8]) -> u8 {
-        let code = ((val.len() + 1).div_ceil(2)) as u8;
-        if code > 0x5 {
-            return 0x6;
+        match val.len() {
+            1 => { 0x1 }
+            2 | 4 | 6 | 8 => { (val.len() / 2) as u8 + 1 }
+            _ => { 0x6 }
         }
-
-        return code;
-        ((val.len() + 1).div_ceil(2)) as u8
     }
 
     fn emit_simple_data_1b(&mut self, data: &[u8]) {
-- 
2.43.0


From b68d0037b218448b84bce6b6ba03174815d6d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 07/26] fix: the file header is a whole sector, so assembled
 files end on a sector boundary

---
 src/compile/assembler.rs | 2 +-
 src/compile/header.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compile/assembler.rs b/src/compile/assembler.rs
index c78df74..a72aea0 100644
--- a/src/compile/assembler.rs
+++ b/src/compile/assembler.rs
@@ -139,7 +139,7 @@ impl<'a> Assembler<'a> {
 
     pub fn append_blank_chunk(&mut self) {
         self.buffer.resize(self.buffer.len() + 4096, 0);
-        self.idx = self.buffer.len() - 4095;
+        self.idx = self.buffer.len() - 4096;
         self.local_idx = 0;
     }
 
diff --git a/src/compile/header.rs b/src/compile/header.rs
index b736c7e..75d1dbc 100644
--- a/src/compile/header.rs
+++ b/src/compile/header.rs
@@ -133,4 +133,4 @@ pub const HEADER_INIT : &[u8] = &[
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
-32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65];
+32, 32, 32, 32, 32, 32, 32, 13, 67, 82, 58, 73, 70, 65, 69];
-- 
2.43.0


From 0836422dfd0cf924fe8f0fc7059f6bcef1090bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 08/26] fix: calculation string constants and variables keep
 bytes above 0x7F

---
 src/decompile/decompiler.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 79d1c4e..c290390 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -72,13 +72,13 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x13 => {
                 /* Processing String */
                 let n = it.next();
-                let mut s = String::new();
+                let mut s = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    s.push(*it.next().unwrap() as char);
+                    s.push(*it.next().unwrap());
                 }
                 let mut text = String::new();
                 text.push('"');
-                text.push_str(&fm_string_decrypt(s.as_bytes()));
+                text.push_str(&fm_string_decrypt(&s));
                 text.push('"');
 
                 result.push_str(&text);
@@ -86,11 +86,11 @@ fn decompile_calculation(bytecode: &[u8]) -> String {
             0x1a => {
                 /* decode variable */
                 let n = it.next();
-                let mut name_arr = String::new();
+                let mut name_arr = Vec::<u8>::new();
                 for i in 1..=*n.unwrap() as usize {
-                    name_arr.push(*it.next().unwrap() as char);
+                    name_arr.push(*it.next().unwrap());
                 }
-                let name = fm_string_decrypt(name_arr.as_bytes());
+                let name = fm_string_decrypt(&name_arr);
                 result.push_str(&name);
             },
             0x25 => {
-- 
2.43.0


From ccce1f5500381a572a1b4d6d63d698fc28950f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 09/26] fix: record navigation on an empty found set no longer
 underflows

---
 src/testing/database.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 9d6ee1d..a726461 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -567,7 +567,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len() - 1;
+            set.record_ptr = set.found_set.len().saturating_sub(1);
         } else {
             set.record_ptr = record_id;
         }
@@ -582,7 +582,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr < set.found_set.len() - 1 {
+        if set.record_ptr < set.found_set.len().saturating_sub(1) {
             set.record_ptr += 1;
         }
     }
@@ -594,7 +594,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len() - 1;
+        set.record_ptr = set.found_set.len().saturating_sub(1);
     }
 }
 
-- 
2.43.0


From 45e3a398c5655cd8a0044550136f4b95f15fe1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 10/26] fix: reading a found-set field without a current record
 gives an empty value instead of a panic

---
 src/testing/database.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index a726461..2ab5bb2 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -211,7 +211,10 @@ impl Database {
         let occ = self.get_current_occurrence();
         let table = self.get_current_table();
 
-        let cur_idx = occ.found_set[occ.record_ptr];
+        let cur_idx = match occ.get_current_record() {
+            Ok(idx) => idx,
+            Err(_) => return "",
+        };
 
         for f in &table.fields {
             if f.name == field {
-- 
2.43.0


From dcdcf01b91eaf5e15342fa840384b3b5fdaa2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 11/26] fix: less and greater relationships do not relate equal
 values

---
 src/testing/database.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 2ab5bb2..07ad7a4 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -436,9 +436,9 @@ impl Database {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
                         RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
+                        RelationComparison::Less => *lhs.1 < *rhs.1.to_string(),
                         RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
+                        RelationComparison::Greater => *lhs.1 > *rhs.1.to_string(),
                         RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::Cartesian => true,
                         _ => false
-- 
2.43.0


From 677c39dd9d9b6191ad19921c43d776b2c89640cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 12/26] fix: each step of a related lookup joins on that
 relationship's own field of the records reached

---
 src/testing/database.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index 07ad7a4..bb08310 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -400,12 +400,6 @@ impl Database {
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
-            let current_record = current_occurrence.get_current_record();
-
-            if current_record.is_err() {
-                return Err("Cannot access unrelated record.");
-            }
-
             let relation = current_occurrence.related_records
                 .iter()
                 .filter(|x| x.occurrence == next)
@@ -416,10 +410,24 @@ impl Database {
             }
 
             if current_set.is_empty() {
+                let current_record = current_occurrence.get_current_record();
+
+                if current_record.is_err() {
+                    return Err("Cannot access unrelated record.");
+                }
+
                 let tmp = &self.get_current_table()
                     .fields[relation[0].relationship.field1]
                     .records[current_record.unwrap()];
                 current_set.push((current_record.unwrap(), tmp.to_string()));
+            } else {
+                /* the records reached so far join on their own field of this relationship */
+                let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
+                    .fields[relation[0].relationship.field1]
+                    .records;
+                for lhs in &mut current_set {
+                    lhs.1 = lhs_list[lhs.0].to_string();
+                }
             }
 
             let next_occurrence = self.get_occurrence(next);
-- 
2.43.0


From 88e6a40ab6fc287b1034f58314b09b638a28c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:00 +0000
Subject: [PATCH 13/26] Revert the four fixes under src/testing (recorded as
 findings instead)

---
 src/testing/database.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/testing/database.rs b/src/testing/database.rs
index bb08310..9d6ee1d 100644
--- a/src/testing/database.rs
+++ b/src/testing/database.rs
@@ -211,10 +211,7 @@ impl Database {
         let occ = self.get_current_occurrence();
         let table = self.get_current_table();
 
-        let cur_idx = match occ.get_current_record() {
-            Ok(idx) => idx,
-            Err(_) => return "",
-        };
+        let cur_idx = occ.found_set[occ.record_ptr];
 
         for f in &table.fields {
             if f.name == field {
@@ -400,6 +397,12 @@ impl Database {
 
         for (current, next) in path_uw.windows(2).map(|x| (x[0], x[1])) {
             let current_occurrence = self.get_occurrence(current);
+            let current_record = current_occurrence.get_current_record();
+
+            if current_record.is_err() {
+                return Err("Cannot access unrelated record.");
+            }
+
             let relation = current_occurrence.related_records
                 .iter()
                 .filter(|x| x.occurrence == next)
@@ -410,24 +413,10 @@ impl Database {
             }
 
             if current_set.is_empty() {
-                let current_record = current_occurrence.get_current_record();
-
-                if current_record.is_err() {
-                    return Err("Cannot access unrelated record.");
-                }
-
                 let tmp = &self.get_current_table()
                     .fields[relation[0].relationship.field1]
                     .records[current_record.unwrap()];
                 current_set.push((current_record.unwrap(), tmp.to_string()));
-            } else {
-                /* the records reached so far join on their own field of this relationship */
-                let lhs_list = &self.tables[current_occurrence.table_ptr as usize]
-                    .fields[relation[0].relationship.field1]
-                    .records;
-                for lhs in &mut current_set {
-                    lhs.1 = lhs_list[lhs.0].to_string();
-                }
             }
 
             let next_occurrence = self.get_occurrence(next);
@@ -444,9 +433,9 @@ impl Database {
                     let related = match relation[0].relationship.join_by {
                         RelationComparison::Equal => *lhs.1 == *rhs.1,
                         RelationComparison::NotEqual => *lhs.1 != *rhs.1,
-                        RelationComparison::Less => *lhs.1 < *rhs.1.to_string(),
+                        RelationComparison::Less => *lhs.1 <= *rhs.1.to_string(),
                         RelationComparison::LessEqual => *lhs.1 <= *rhs.1.to_string(),
-                        RelationComparison::Greater => *lhs.1 > *rhs.1.to_string(),
+                        RelationComparison::Greater => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::GreaterEqual => *lhs.1 >= *rhs.1.to_string(),
                         RelationComparison::Cartesian => true,
                         _ => false
@@ -578,7 +567,7 @@ impl Database {
     pub fn goto_record(&mut self, record_id: usize) {
         let mut set = self.get_current_occurrence_mut();
         if record_id as usize >= set.found_set.len() {
-            set.record_ptr = set.found_set.len().saturating_sub(1);
+            set.record_ptr = set.found_set.len() - 1;
         } else {
             set.record_ptr = record_id;
         }
@@ -593,7 +582,7 @@ impl Database {
 
     pub fn goto_next_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        if set.record_ptr < set.found_set.len().saturating_sub(1) {
+        if set.record_ptr < set.found_set.len() - 1 {
             set.record_ptr += 1;
         }
     }
@@ -605,7 +594,7 @@ impl Database {
 
     pub fn goto_last_record(&mut self) {
         let mut set = self.get_current_occurrence_mut();
-        set.record_ptr = set.found_set.len().saturating_sub(1);
+        set.record_ptr = set.found_set.len() - 1;
     }
 }
 
-- 
2.43.0


From 3814220acb50f20281b5c6248fc8c3848ce32779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 14/26] fix: number relationships by relationships, so that one
 declared after another does not overwrite it

---
 src/compile/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compile/parser.rs b/src/compile/parser.rs
index bcda58d..c4a4c35 100644
--- a/src/compile/parser.rs
+++ b/src/compile/parser.rs
@@ -81,7 +81,7 @@ impl Parser {
                             }
                         }
                     }
-                    ret.relationships.insert(ret.tables.len() + 1, relationship);
+                    ret.relationships.insert(ret.relationships.len() + 1, relationship);
                 },
                 TokenType::ValueList => {
                     let mut value_list = FMComponentValueList::new();
-- 
2.43.0


From 585fb1d0715c86d9352a5faebf7c48a8de73d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 15/26] fix: names that read as inf or nan are names, and
 numbers keep their text

---
 src/burn_script/lexer.rs | 2 +-
 src/compile/lexer.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 8280a00..a7b5af0 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -27,7 +27,7 @@ impl Lexer {
                 "else" => Token::new(TokenType::Else),
                 _ => {
                     let n = b.parse::<f64>();
-                    if n.is_ok() {
+                    if n.is_ok() && n.unwrap().is_finite() {
                         Token::with_value(TokenType::NumericLiteral, b)
                     } else {
                         Token::with_value(TokenType::Identifier, b)
diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 6ed2a06..86c8943 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -21,8 +21,8 @@ pub fn tokenize(code: &str) -> Vec<Token> {
             "end" => Ok(Token::new(TokenType::End)),
             _ => {
                 let n = b.parse::<f64>();
-                if n.is_ok() {
-                    Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
+                if n.is_ok() && n.unwrap().is_finite() {
+                    Ok(Token::with_value(TokenType::NumericLiteral, b.to_string()))
                 } else if !b.as_bytes()[0].is_ascii_digit() {
                     Ok(Token::with_value(TokenType::Identifier, b.to_string()))
                 } else {
-- 
2.43.0


From 17a565ab1c0397c2f47a0f911d650571957edd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 16/26] fix: a character after < or > is not swallowed

---
 src/burn_script/lexer.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index a7b5af0..6e6f613 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -198,7 +198,6 @@ impl Lexer {
                         lex_iter.next();
                         ret.push(Token::new(TokenType::Geq));
                     } else {
-                        lex_iter.next();
                         ret.push(Token::new(TokenType::Gt));
                     }
                     Some(ret)
@@ -215,7 +214,6 @@ impl Lexer {
                         lex_iter.next();
                         ret.push(Token::new(TokenType::Leq));
                     } else {
-                        lex_iter.next();
                         ret.push(Token::new(TokenType::Lt));
                     }
                     Some(ret)
-- 
2.43.0


From 88df95cc32b6765767c730a72013ef63030511c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 17/26] fix: commas and parentheses inside a string literal do
 not split an argument

---
 src/burn_script/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/burn_script/lexer.rs b/src/burn_script/lexer.rs
index 6e6f613..baaa0fb 100644
--- a/src/burn_script/lexer.rs
+++ b/src/burn_script/lexer.rs
@@ -77,7 +77,7 @@ impl Lexer {
                                 in_string = !in_string;
                                 buffer.push(*c);
                             }
-                            ')' => {
+                            ')' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
                                     buffer.clear();
@@ -87,11 +87,11 @@ impl Lexer {
                                     stack -= 1;
                                 }
                             },
-                            '(' => {
+                            '(' if !in_string => {
                                 stack += 1;
                                 buffer.push(*c);
                             }
-                            ',' => {
+                            ',' if !in_string => {
                                 if stack == 0 {
                                     ret.push(Token::with_value(TokenType::Argument, &buffer));
                                     buffer.clear();
-- 
2.43.0


From 1144bba093dab709a9971d68e4aff0dc447763a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 18/26] fix: the delimiter that closes a string or calculation
 does not leak into a name, and strings keep leading spaces

---
 src/compile/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compile/lexer.rs b/src/compile/lexer.rs
index 86c8943..64d8424 100644
--- a/src/compile/lexer.rs
+++ b/src/compile/lexer.rs
@@ -33,7 +33,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
     };
 
     while let Some((idx, mut c)) = &lex_iter.next() {
-        if c.is_whitespace() && buffer.is_empty() {
+        if c.is_whitespace() && buffer.is_empty() && !in_string {
             continue;
         }
 
@@ -42,8 +42,9 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::String, text: buffer.to_string()});
                 in_string = false;
                 buffer.clear();
+            } else {
+                buffer.push(c);
             }
-            buffer.push(c);
             c = lex_iter.next().unwrap().1;
         }
 
@@ -63,6 +64,7 @@ pub fn tokenize(code: &str) -> Vec<Token> {
                 list.push(Token { ttype: TokenType::Calculation, text: buffer.to_string()});
                 in_calc = false;
                 buffer.clear();
+                break;
             }
             buffer.push(c);
             c = lex_iter.next().unwrap().1;
-- 
2.43.0


From a9f986afae0c987015d6d56e4b94370dda244591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 19/26] fix: table occurrences keep the number they are stored
 under

---
 src/decompile/decompiler.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index c290390..6f28753 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -247,6 +247,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
     let mut data_source_names = VecDeque::<String>::new();
+    /* Number of the table occurrence whose directory is being read. */
+    let mut occurrence = 0;
 
 
     while idx != 0 {
@@ -271,7 +273,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "17", "5", "0", "251"] => {
                     if chunk.ctype == ChunkType::DataSimple {
                         let mut tmp = component::FMComponentRelationship::new();
-                        tmp.table1 = fmp_file.table_occurrences.len() as u16;
+                        tmp.table1 = occurrence as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
                         if fmp_file.relationships.iter()
                             .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
@@ -283,6 +285,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examining table occurences */
                 ["3", "17", "5", "0", ..] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 {
+                        occurrence = chunk.data.unwrap()[2] as usize;
+                    }
                     match chunk.ref_simple {
                         Some(2) => {
                             let tmp = component::FMComponentTableOccurence {
@@ -295,11 +300,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
 
                             let source = chunk.data.unwrap()[2];
                             println!("{:?}", source);
-                            fmp_file.table_occurrences.insert(fmp_file.table_occurrences.len() + 1, tmp);
+                            fmp_file.table_occurrences.insert(occurrence, tmp);
                         }
                         Some(16) => {
                             fmp_file.table_occurrences
-                                .get_mut(&(fmp_file.table_occurrences.len())).unwrap()
+                                .get_mut(&occurrence).unwrap()
                                 .table_occurence_name = s;
                         },
                         Some(129) => {
-- 
2.43.0


From df1de30c5b6ed6b117440a64f22605f678cdb1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 20/26] fix: relationships keep the number they are stored
 under

---
 src/decompile/decompiler.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 6f28753..42e0de8 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -275,10 +275,10 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                         let mut tmp = component::FMComponentRelationship::new();
                         tmp.table1 = occurrence as u16;
                         tmp.table2 = chunk.data.unwrap()[2] as u16;
-                        if fmp_file.relationships.iter()
-                            .filter(|x| x.1.table1 == tmp.table2 && x.1.table2 == tmp.table1)
-                            .collect::<Vec<_>>().len() == 0 {
-                            fmp_file.relationships.insert(fmp_file.relationships.len() + 1, tmp);
+                        /* Both occurrences list the relationship, under its number. */
+                        let number = get_path_int(&chunk.data.unwrap()[4..]);
+                        if !fmp_file.relationships.contains_key(&number) {
+                            fmp_file.relationships.insert(number, tmp);
                         }
                     }
                 },
-- 
2.43.0


From f9791ba265cd2fa27416d3127d8f6a1b1cf66fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 21/26] fix: a table, field or layout directory met again does
 not replace what was read from it

---
 src/decompile/decompiler.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 42e0de8..0f3f6f4 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -359,10 +359,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 /* Examing layouts */
                 ["4", "1", "7", x, ..] => {
                     if chunk.ctype == ChunkType::PathPush {
-                        fmp_file.layouts.insert(
-                            x.parse::<usize>().unwrap(),
-                            component::FMComponentLayout::new()
-                            );
+                        if !fmp_file.layouts.contains_key(&x.parse::<usize>().unwrap()) {
+                            fmp_file.layouts.insert(
+                                x.parse::<usize>().unwrap(),
+                                component::FMComponentLayout::new()
+                                );
+                        }
                         continue;
                     } else {
                         match chunk.ref_simple {
@@ -399,10 +401,12 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                                 fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128,
                             component::FMComponentTable::new());
                             }
-                            fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
-                                .unwrap().fields
-                                    .insert(y.parse::<usize>().unwrap() as u16, 
-                                            component::FMComponentField::new());
+                            let fields = &mut fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))
+                                .unwrap().fields;
+                            if !fields.contains_key(&(y.parse::<usize>().unwrap() as u16)) {
+                                fields.insert(y.parse::<usize>().unwrap() as u16, 
+                                              component::FMComponentField::new());
+                            }
                         } else {
                             let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                             // match chunk.ref_simple.unwrap_or(0) {
@@ -475,7 +479,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["3", "16", "5", x] => {
                     let s = fm_string_decrypt(chunk.data.unwrap_or(&[0]));
                     if chunk.ctype == ChunkType::PathPush {
-                        if !fmp_file.tables.contains_key(&x.parse().unwrap()) {
+                        if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() - 128)) {
                             fmp_file.tables.insert(x.parse::<usize>().unwrap() - 128, component::FMComponentTable::new());
                         } 
                     } else {
-- 
2.43.0


From b0f3bafb3e8bbb9ea7ccd46896ffc73b6bafe3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 22/26] fix: a data source's name comes from its own record,
 not from the alphabetical index

---
 src/decompile/decompiler.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 0f3f6f4..4779488 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -2,7 +2,7 @@ use std::char::decode_utf16;
 use std::fs::{File, write};
 use std::io::Read;
 use std::path::Path;
-use std::collections::{BTreeMap, HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap};
 
 use crate::component::{FMComponentDataSource, RelationComparison, SourceFileLocation};
 use crate::fm_script_engine::fm_script_engine_instructions::{ScriptStep, INSTRUCTIONMAP, Instruction};
@@ -11,7 +11,7 @@ use crate::file::FmpFile;
 use crate::decompile::sector;
 
 use crate::chunk::{get_chunk_from_code, ChunkType};
-use crate::encoding_util::{fm_string_decrypt, get_int, get_path_int};
+use crate::encoding_util::{fm_string_decrypt, get_path_int};
 
 const SECTOR_SIZE : usize = 4096;
 
@@ -246,7 +246,6 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
     let mut idx = 2;
     let mut script_segments: HashMap<usize, BTreeMap<usize, Vec<u8>>> = HashMap::new();
 
-    let mut data_source_names = VecDeque::<String>::new();
     /* Number of the table occurrence whose directory is being read. */
     let mut occurrence = 0;
 
@@ -694,15 +693,8 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // } else {
                     // }
                 },
-                /* Variable length encoded names of data sources. */
+                /* Variable length encoded names of data sources, in alphabetical order. */
                 ["32", "1", "1"] => {
-                    match chunk.ctype {
-                        ChunkType::DataSimple => {
-                            let s = dbcharconv::decode_bytes(chunk.data.unwrap());
-                            data_source_names.push_back(s);
-                        }
-                        _ => {}
-                    }
                 },
                 /* Identifiers for data sources. */
                 ["32", "1", "3"] => {
@@ -716,16 +708,18 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                 ["32", "5", ds, ..] => {
                     match chunk.ctype {
                         ChunkType::PathPush => {
-                            let idx = get_int(chunk.data.unwrap());
-                            let mut tmp = FMComponentDataSource::new();
-                            let front = data_source_names.pop_front();
-                            if front.is_some() {
-                                tmp.source_name = front.unwrap();
-                                fmp_file.data_sources.insert(idx, tmp);
+                            if !fmp_file.data_sources.contains_key(&ds.parse::<usize>().unwrap()) {
+                                fmp_file.data_sources.insert(ds.parse::<usize>().unwrap(), FMComponentDataSource::new());
                             }
                         }
                         ChunkType::RefSimple => {
                             match chunk.ref_simple.unwrap() {
+                                metadata_constants::COMPONENT_NAME => {
+                                    let handle = fmp_file.data_sources.get_mut(&ds.parse::<usize>().unwrap());
+                                    if handle.is_some() {
+                                        handle.unwrap().source_name = fm_string_decrypt(chunk.data.unwrap());
+                                    }
+                                },
                                 130 => {
                                     if chunk.code == 0x6 {
                                         /* Path is stored here */
-- 
2.43.0


From f98c40abe73d045f2638e291e4dcb0c62ff65a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 23/26] fix: a rest of 21 bytes behind the last script step is
 not indexed past its end

---
 src/decompile/decompiler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 4779488..73906bb 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -597,7 +597,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     if chunk.segment_idx == Some(4) {
                             let instrs = chunk.data.unwrap().chunks(28);
                             for (i, ins) in instrs.enumerate() {
-                                if ins.len() >= 21 {
+                                if ins.len() > 21 {
                                 let oc = &INSTRUCTIONMAP[ins[21] as usize];
                                 if oc.is_some() {
                                     let mut switch: Vec<String> = vec![];
@@ -627,7 +627,7 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                             Some(4) => {
                                 let instrs = chunk.data.unwrap().chunks(28);
                                 for ins in instrs {
-                                    if ins.len() >= 21 {
+                                    if ins.len() > 21 {
                                     let oc = &INSTRUCTIONMAP[ins[21] as usize];
                                     if oc.is_some() {
                                         let mut switch: Vec<String> = vec![];
-- 
2.43.0


From 572135ec07d8d5b94269a0c2b449a015a6e74e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 24/26] fix: opcode 255 has its own entry in the instruction
 map

---
 src/fm_script_engine/fm_script_engine_instructions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fm_script_engine/fm_script_engine_instructions.rs b/src/fm_script_engine/fm_script_engine_instructions.rs
index d090ff6..a8f3be7 100644
--- a/src/fm_script_engine/fm_script_engine_instructions.rs
+++ b/src/fm_script_engine/fm_script_engine_instructions.rs
@@ -224,7 +224,7 @@ impl FromStr for Instruction {
     }
 }
 
-pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
+pub static INSTRUCTIONMAP : [Option<Instruction>; 256] = [
     None,
 	  Some(Instruction::PerformScript),
     None,
@@ -479,6 +479,7 @@ pub static INSTRUCTIONMAP : [Option<Instruction>; 255] = [
     None,
     None,
     None,
+    None,
     Some(Instruction::Assert),
 ];
 
-- 
2.43.0


From cc211ffc8b323777ae8efcc2c5841b0adcc5e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:55 +0000
Subject: [PATCH 25/26] fix: arguments of a step with an unknown opcode are
 skipped instead of a panic

---
 src/decompile/decompiler.rs | 82 ++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 73906bb..9510982 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -211,6 +211,16 @@ fn print_chunk(chunk: &chunk::Chunk, path: &Vec<String>) {
     }
 }
 
+/* The step stored under an id. Steps with an opcode we do not know are not kept. */
+fn step_with_id(instructions: &mut Vec<ScriptStep>, id: usize) -> Option<&mut ScriptStep> {
+    for i in 0..instructions.len() {
+        if instructions[i].index == id {
+            return Some(&mut instructions[i]);
+        }
+    }
+    None
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -509,29 +519,22 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            let instruction_idx = instrs
-                                .iter()
-                                .enumerate()
-                                .filter(|x| x.1.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0].0;
-
-                            // println!("Searching for {step}. instructions for script {script} == {}", instrs.len());
+                            match step_with_id(instrs, step.parse().unwrap()) {
+                                Some(instr) => {
+                                    match instr.opcode {
+                                        Instruction::SetVariable => {
+                                            instr.switches.push(s);
+                                        },
+                                        Instruction::ExitScript => {
+                                            let bytecode = decompile_calculation(chunk.data.unwrap());
+                                            instr.switches.push(bytecode);
+                                        },
+                                        _ => {
 
-                            match instrs.get(instruction_idx).unwrap().opcode {
-                                Instruction::SetVariable => {
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(s);
-                                },
-                                Instruction::ExitScript => {
-                                    let bytecode = decompile_calculation(chunk.data.unwrap());
-                                    instrs.get_mut(instruction_idx).unwrap().switches.push(bytecode);
+                                        }
+                                    }
                                 },
-                                _ => {
-
-                                }
-                            }
-
-                            for i in &mut *instrs {
-                                // println!("{:?}", i);
+                                None => {}
                             }
                         },
                         _ => {
@@ -543,25 +546,17 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // println!("step type: {:?}", fmp_file.scripts.get(&script.parse().unwrap()).unwrap());
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "1" => {
-                            // println!("Found variable: {}", s);
-                            // let script = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap().clone();
-                            // let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
-                            // let mut step = &mut fmp_file.scripts.get_mut(&x.parse().unwrap()).unwrap()
-                            //     .instructions.get_mut(&y.parse().unwrap());
-
-                            let instr = &mut fmp_file.scripts
-                                .get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut()
-                                .filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-
-                            // println!("Searching for {step}. instructions for script {script}");
-
-                            match instr.opcode {
-                                Instruction::SetVariable => {
-                                    instr.switches.push(s);
+                            let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
+                            match step_with_id(instrs, step.parse().unwrap()) {
+                                Some(instr) => {
+                                    match instr.opcode {
+                                        Instruction::SetVariable => {
+                                            instr.switches.push(s);
+                                        },
+                                        _ => {}
+                                    }
                                 },
-                                _ => {}
+                                None => {}
                             }
                         },
                         _ => {
@@ -574,10 +569,11 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     match chunk.ref_simple.unwrap_or(0).to_string().as_str() {
                         "5" => {
                             let calc = decompile_calculation(chunk.data.unwrap());
-                            let instr = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap()
-                                .instructions.iter_mut().filter(|x| x.index == step.parse::<usize>().unwrap())
-                                .collect::<Vec<_>>()[0];
-                                instr.switches.push(calc);
+                            let instrs = &mut fmp_file.scripts.get_mut(&script.parse().unwrap()).unwrap().instructions;
+                            match step_with_id(instrs, step.parse().unwrap()) {
+                                Some(instr) => instr.switches.push(calc),
+                                None => {}
+                            }
                         },
                         _ => {
 
-- 
2.43.0


From c9e1f53a98f2898a8310ec09db6a30c4f288dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:10 +0000
Subject: [PATCH 26/26] fix: steps of a script stored in segments are assembled
 before their arguments are read, instead of a panic

---
 src/decompile/decompiler.rs | 72 +++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/decompile/decompiler.rs b/src/decompile/decompiler.rs
index 9510982..4762a9e 100644
--- a/src/decompile/decompiler.rs
+++ b/src/decompile/decompiler.rs
@@ -221,6 +221,38 @@ fn step_with_id(instructions: &mut Vec<ScriptStep>, id: usize) -> Option<&mut Sc
     None
 }
 
+/* Steps of a script that is stored in segments. */
+fn assemble_script(fmp_file: &mut FmpFile, script: usize, segments: BTreeMap<usize, Vec<u8>>) {
+    let mut instructions = Vec::<u8>::new();
+    for mut segment in segments.into_values() {
+        instructions.append(&mut segment);
+    }
+
+    for instr in instructions.chunks(28) {
+        if instr.len() < 28 {
+            continue;
+        }
+        let op = &INSTRUCTIONMAP[instr[21] as usize];
+        if op.is_some() {
+            let mut switch: Vec<String> = vec![];
+            match op {
+                Some(Instruction::PerformScript) => {
+                    switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
+                },
+                _ => {}
+            }
+            let tmp = ScriptStep {
+                opcode: op.clone().unwrap(),
+                index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
+                switches: switch,
+            };
+            let handle = fmp_file.scripts.get_mut(&script).unwrap();
+            handle.instructions.insert(handle.instructions.len(), tmp);
+        }
+
+    }
+}
+
 pub fn decompile_fmp12_file_with_header(path: &Path) -> FmpFile {
     let mut file = File::open(path).expect("unable to open file.");
     let mut buffer = Vec::<u8>::new();
@@ -585,6 +617,13 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
                     // }
                 },
                 ["17", "5", x, ..] => {
+                    /* Step arguments follow, their steps have to be there. */
+                    if chunk.ctype == ChunkType::PathPush && path.len() == 4 && path[3] == "5" {
+                        match script_segments.remove(&x.parse().unwrap()) {
+                            Some(segments) => assemble_script(&mut fmp_file, x.parse().unwrap(), segments),
+                            None => {}
+                        }
+                    }
                     if chunk.ctype == ChunkType::PathPop 
                         || chunk.ctype == ChunkType::PathPush {
                         continue;
@@ -745,36 +784,9 @@ pub fn decompile_fmp12_file(path: &Path) -> FmpFile {
         }
         idx = sectors[idx].next;
     }
-    /* Assemble scripts */
-    for (script, segments) in &mut script_segments {
-        let mut instructions = Vec::<u8>::new();
-        for s in segments {
-            instructions.append(s.1);
-        }
-
-        for instr in instructions.chunks(28) {
-            if instr.len() < 28 {
-                continue;
-            }
-            let op = &INSTRUCTIONMAP[instr[21] as usize];
-            if op.is_some() {
-                let mut switch: Vec<String> = vec![];
-                match op {
-                    Some(Instruction::PerformScript) => {
-                        switch.push(fmp_file.scripts.get(&(instr[8] as usize)).unwrap().script_name.clone());
-                    },
-                    _ => {}
-                }
-                let tmp = ScriptStep {
-                    opcode: op.clone().unwrap(),
-                    index: crate::encoding_util::get_path_int(&instr[2..instr[0] as usize + 1]),
-                    switches: switch,
-                };
-                let handle = fmp_file.scripts.get_mut(&script).unwrap();
-                handle.instructions.insert(handle.instructions.len(), tmp);
-            }
-
-        }
+    /* Assemble the scripts that have no step arguments */
+    for (script, segments) in script_segments.drain() {
+        assemble_script(&mut fmp_file, script, segments);
     }
     // for script in &fmp_file.scripts {
     //     println!("{:?}", script.1.script_name);
-- 
2.43.0

