From 57197ee5dee0d2bfa5c0d0c54445dfad621aa1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 01/46] fix: produce a tree when the start rule does not match

Parsing a text the start rule rejects (for example, an empty JSON file)
used to panic. Report such a file as a single error instead.
---
 fall/parse/src/syn_engine/expr.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..d59bf4f 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,17 +20,29 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
-    if !leftover.is_empty() {
-        parser.reopen();
-        parser.start_error();
-        while let Some((_, ts)) = parser.bump(leftover) {
-            leftover = ts;
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) if leftover.is_empty() => return parser.done(),
+        Some(leftover) => {
+            parser.reopen();
+            leftover
+        }
+        // Nothing matches the start rule: the file is a single error.
+        None => {
+            match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!()
+            };
+            pos
         }
-        parser.finish();
-        parser.finish();
     };
 
+    parser.start_error();
+    while let Some((_, ts)) = parser.bump(leftover) {
+        leftover = ts;
+    }
+    parser.finish();
+    parser.finish();
+
     parser.done()
 }
 
-- 
2.43.0


From 5f0e850c67f293f0ae8f541fe695dd99f9039a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 02/46] fix: lex raw strings with any number of hashes

A raw string with more than 30 hashes made the lexer panic with an
out of bounds slice.
---
 lang/fall/syntax/src/fall.fall | 6 ++----
 lang/fall/syntax/src/fall.rs   | 6 ++----
 lang/rust/syntax/src/rust.fall | 6 ++----
 lang/rust/syntax/src/rust.rs   | 6 ++----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..10f27fa 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -250,10 +250,8 @@ verbatim r#########"
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
 "#########
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..f111002 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -188,10 +188,8 @@ pub fn language() -> &'static rt::Language {
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more then 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 #[allow(unused)]
 use self::rt::AstNode;
diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d2dcbd2..0f9f814 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1293,10 +1293,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 
 fn parse_block_comment(s: &str) -> Option<usize> {
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 223c058..bdc036e 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -571,10 +571,8 @@ fn whitespace_binder(ty: rt::NodeType, adjacent_tokens: Vec<(rt::NodeType, &str)
 }
 fn parse_raw_string(s: &str) -> Option<usize> {
     let quote_start = s.find('"').unwrap();
-    // Who needs more than 25 hashes anyway? :)
-    let q_hashes = concat!('"', "######", "######", "######", "######", "######");
-    let closing = &q_hashes[..quote_start];
-    s[quote_start + 1..].find(closing).map(|i| i + quote_start + 1 + closing.len())
+    let closing = format!("\"{}", "#".repeat(quote_start - 1));
+    s[quote_start + 1..].find(&closing).map(|i| i + quote_start + 1 + closing.len())
 }
 fn parse_block_comment(s: &str) -> Option<usize> {
     let mut s = &s[2..];
-- 
2.43.0


From fa6bd491f1fc7154b3ca6142f8362e54ccbe88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 03/46] fix: parse unclosed delimiters in grammars in linear
 time

Without a commit, an unclosed bracket made `balanced` parse everything
after it twice, so time was exponential in the number of unclosed brackets.
---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 10f27fa..22e1df1 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -233,7 +233,7 @@ rule in_parens { <balanced '(' ')'> }
 rule in_bracks { <balanced '[' ']'> }
 
 rule balanced(bra, ket) {
-  { bra <balanced bra ket> ket
+  { bra <commit> <balanced bra ket> ket
   | {<not ket> <any>}
   }*
 }
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index f111002..45c5edc 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From cb5c94c350fe894bc6b140fa724b291d5706d70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 04/46] fix: forget replacements and previous nodes of
 abandoned alternatives

---
 fall/parse/src/syn_engine/expr.rs   |  2 ++
 fall/parse/src/syn_engine/parser.rs | 29 ++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index d59bf4f..96fee9b 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -60,7 +60,9 @@ pub(crate) fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<P
 fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<Pos> {
     let old_mode = p.predicate_mode;
     p.predicate_mode = true;
+    let mark = p.mark();
     let result = parse_expr(p, expr, tokens);
+    p.rollback(mark);
     p.predicate_mode = old_mode;
     result
 }
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..6dc7176 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -34,7 +34,12 @@ impl Pos {
     }
 }
 
-pub(crate) struct Mark(u32);
+/// A point in the event log, and what has to be restored to roll back to it.
+pub(crate) struct Mark {
+    event: u32,
+    replacement: Option<NodeTypeRef>,
+    prev: Option<NodeType>,
+}
 
 impl<'g> Parser<'g> {
     pub fn new(
@@ -119,8 +124,8 @@ impl<'g> Parser<'g> {
 
     pub fn finish_cached(&mut self, mark: Mark) {
         if !self.predicate_mode {
-            let len = self.events.len() as u32 - (mark.0 + 1);
-            match self.events[mark.0 as usize] {
+            let len = self.events.len() as u32 - (mark.event + 1);
+            match self.events[mark.event as usize] {
                 Event::Cached { ref mut n_events, .. } => *n_events = len,
                 _ => unreachable!(),
             }
@@ -137,7 +142,11 @@ impl<'g> Parser<'g> {
     }
 
     pub fn mark(&self) -> Mark {
-        Mark(self.events.len() as u32)
+        Mark {
+            event: self.events.len() as u32,
+            replacement: self.replacement,
+            prev: self.prev,
+        }
     }
 
     pub fn rollback(&mut self, mark: Mark) {
@@ -146,21 +155,23 @@ impl<'g> Parser<'g> {
             unsafe { xs.set_len(len) }
         }
 
-        truncate_fast(&mut self.events, mark.0 as usize);
+        truncate_fast(&mut self.events, mark.event as usize);
+        self.replacement = mark.replacement;
+        self.prev = mark.prev;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
         let ty = self[ty_idx];
-        match self.events[mark.0 as usize] {
+        match self.events[mark.event as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
             _ => unreachable!()
         }
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
-        match self.events[child.0 as usize] {
+        match self.events[child.event as usize] {
             Event::Start { ref mut forward_parent, .. } =>
-                *forward_parent = Some(parent.0 - child.0),
+                *forward_parent = Some(parent.event - child.event),
             _ => unreachable!(),
         }
     }
@@ -212,7 +223,7 @@ impl<'g> Parser<'g> {
     }
 
     fn start_ty(&mut self, ty: NodeType) -> Mark {
-        let mark = Mark(self.events.len() as u32);
+        let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
         mark
     }
-- 
2.43.0


From f54e0222a50108f69ea8fc71505593f9c5f10724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 05/46] fix: leave recorded nodes alone while looking ahead

---
 fall/parse/src/syn_engine/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 6dc7176..5a15c27 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -161,6 +161,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.event as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -169,6 +172,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.event as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.event - child.event),
-- 
2.43.0


From c909b268f997fbceb1950d7fa1284f318d4054a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 06/46] fix: keep the replacement of an outer node when an
 inner one has its own

---
 fall/parse/src/syn_engine/expr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 96fee9b..0d567cb 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -143,15 +143,18 @@ fn parse_pub<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     ty_idx: NodeTypeRef, body: ExprRef, replaceable: bool,
 ) -> Option<Pos> {
+    let outer_replacement = p.replacement;
     if replaceable {
         p.replacement = None;
     }
     let mark = p.start(ty_idx);
     let ts = parse_expr(p, body, tokens)?;
-    if let (true, Some(ty)) = (replaceable, p.replacement) {
-        p.replacement = None;
-        p.replace(mark, ty)
-    };
+    if replaceable {
+        if let Some(ty) = p.replacement {
+            p.replace(mark, ty)
+        }
+        p.replacement = outer_replacement;
+    }
     p.finish();
     p.prev = Some(p[ty_idx]);
     Some(ts)
-- 
2.43.0


From e7733d538e2376179c89b3149e2a19bd002f0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:43 +0000
Subject: [PATCH 07/46] fix: parameters mentioned in an argument are those of
 the caller

---
 fall/parse/src/syn_engine/expr.rs   | 23 ++++++++++++++++-------
 fall/parse/src/syn_engine/parser.rs |  9 +++++++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 0d567cb..d2402e3 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -337,17 +337,21 @@ fn parse_call<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
-    let old = p.args;
+    let caller = p.frame;
+    let mut frame = p.frames[caller];
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
-            _ => arg
+            Expr::Var(i) => p.frames[caller][i.0 as usize].unwrap(),
+            _ => (arg, caller)
         };
 
-        p.args[arg_pos.0 as usize] = Some(arg);
+        frame[arg_pos.0 as usize] = Some(arg);
     }
+    p.frame = p.frames.len();
+    p.frames.push(frame);
     let result = parse_expr(p, body, tokens);
-    p.args = old;
+    p.frames.pop();
+    p.frame = caller;
     result
 }
 
@@ -355,8 +359,13 @@ fn parse_var<'g>(
     p: &mut Parser<'g>, tokens: Pos,
     i: Arg,
 ) -> Option<Pos> {
-    let expr = p.args[i.0 as usize].unwrap();
-    parse_expr(p, expr, tokens)
+    let current = p.frame;
+    // Parameters inside of an argument are those of the caller
+    let (expr, frame) = p.frames[current][i.0 as usize].unwrap();
+    p.frame = frame;
+    let result = parse_expr(p, expr, tokens);
+    p.frame = current;
+    result
 }
 
 fn parse_prev_is<'g>(
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 5a15c27..71f6b29 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -17,10 +17,14 @@ pub(crate) struct Parser<'g> {
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
     pub contexts: [bool; 16],
-    pub args: [Option<ExprRef>; 16],
+    pub frames: Vec<Frame>,
+    pub frame: usize,
     pub prev: Option<NodeType>,
 }
 
+/// Arguments of a call, each with the frame to evaluate it in.
+pub(crate) type Frame = [Option<(ExprRef, usize)>; 16];
+
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Pos(u32, u32);
 
@@ -75,7 +79,8 @@ impl<'g> Parser<'g> {
             replacement: None,
             predicate_mode: false,
             contexts: [false; 16],
-            args: [None; 16],
+            frames: vec![[None; 16]],
+            frame: 0,
             prev: None,
         };
         (parser, pos)
-- 
2.43.0


From 7adf0927f21e2857a2bd6ba7ef9247de40b4ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 08/46] fix: reuse cached parses only where they fit

---
 fall/parse/src/syn_engine/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 71f6b29..90b613e 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -111,9 +111,14 @@ impl<'g> Parser<'g> {
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
         if let Some((ref cache, events)) = self.cache {
-            let text_pos = self.non_ws_indexes[pos.0 as usize].0;
+            let text_pos = self.non_ws_indexes.get(pos.0 as usize)?.0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if pos.0 + n_tokens > pos.1 {
+                    return None;
+                }
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
-- 
2.43.0


From 6c87bbaca10d73f0658f312780ff1fc7388fa82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 09/46] fix: keep insertions after deleted and replaced nodes,
 and all of several after one node

---
 fall/tree/src/edit.rs             | 18 +++++++-----------
 lang/fall/src/editor/formatter.rs |  9 +++++++++
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/fall/tree/src/edit.rs b/fall/tree/src/edit.rs
index 02e0b6e..70262d6 100644
--- a/fall/tree/src/edit.rs
+++ b/fall/tree/src/edit.rs
@@ -62,20 +62,16 @@ impl<'f> FileEdit<'f> {
     fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
         if self.deleted.iter().find(|&&n| n == node).is_some() {
             edit_builder.delete(node.range());
-            return;
-        }
-
-        if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
+        } else if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
             edit_builder.replace(node.range(), replacement.as_ref());
-            return;
-        }
-
-        for child in node.children() {
-            self.text_edit_for_node(child, edit_builder);
+        } else {
+            for child in node.children() {
+                self.text_edit_for_node(child, edit_builder);
+            }
         }
 
-        if let Some(&(_, ref replacement)) = self.inserted.iter().find(|&&(n, _)| n == node) {
-            edit_builder.insert(node.range().end(), replacement.as_ref());
+        for &(_, ref text) in self.inserted.iter().filter(|&&(n, _)| n == node) {
+            edit_builder.insert(node.range().end(), text.as_ref());
         }
     }
 }
diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index c951fa9..99e9ebf 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -41,6 +41,13 @@ struct Spacer<'r> {
 }
 
 impl<'r> Spacer<'r> {
+    fn has_rule_after(&self, node: Node) -> bool {
+        self.rules.iter().any(|&rule| match rule {
+            Rule::After(ty, _) => ty == node.ty(),
+            Rule::Before(..) => false,
+        })
+    }
+
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
@@ -48,6 +55,8 @@ impl<'r> Spacer<'r> {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
+                    // The space after `prev` is taken care of by its own rule.
+                    (Rule::Before(rty, _), _, Some(prev)) if rty == node.ty() && self.has_rule_after(prev) => continue,
                     (Rule::Before(rty, spaces), _, Some(prev)) if rty == node.ty() => {
                         (spaces, prev, prev)
                     }
-- 
2.43.0


From 5738529436abc8b43fb48c69235e58d970d3856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 10/46] fix: apply every substring replacement of a file edit

---
 fall/tree/src/edit.rs | 48 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/fall/tree/src/edit.rs b/fall/tree/src/edit.rs
index 70262d6..e5fa755 100644
--- a/fall/tree/src/edit.rs
+++ b/fall/tree/src/edit.rs
@@ -1,11 +1,11 @@
 use crate::{TextEdit, TextEditBuilder, Node, File, TextRange, TextEditOp, tu};
-use crate::search::find_covering_node;
 
 pub struct FileEdit<'f> {
     file: &'f File,
     inserted: Vec<(Node<'f>, String)>,
     replaced: Vec<(Node<'f>, String)>,
     deleted: Vec<Node<'f>>,
+    substrings: Vec<(TextRange, String)>,
 }
 
 impl<'f> FileEdit<'f> {
@@ -15,6 +15,7 @@ impl<'f> FileEdit<'f> {
             inserted: Vec::new(),
             replaced: Vec::new(),
             deleted: Vec::new(),
+            substrings: Vec::new(),
         }
     }
 
@@ -27,16 +28,8 @@ impl<'f> FileEdit<'f> {
     }
 
     pub fn replace_substring(&mut self, range: TextRange, replacement: String) {
-        let root = self.file.root();
-        assert!(range.is_subrange_of(root.range()));
-        let node = find_covering_node(root, range);
-        let file_text = self.file.text();
-        let prefix = file_text.slice(TextRange::from_to(node.range().start(), range.start()));
-        let suffix = file_text.slice(TextRange::from_to(range.end(), node.range().end()));
-        let new_text = prefix.to_string()
-            + &replacement
-            + &suffix.to_cow();
-        self.replace_with_text(node, new_text);
+        assert!(range.is_subrange_of(self.file.root().range()));
+        self.substrings.push((range, replacement))
     }
 
     pub fn delete(&mut self, node: Node<'f>) {
@@ -49,7 +42,21 @@ impl<'f> FileEdit<'f> {
 
     pub fn into_text_edit(self) -> TextEdit {
         let mut edit_builder = TextEditBuilder::new(self.file.text());
-        self.text_edit_for_node(self.file.root(), &mut edit_builder);
+        let mut replacements = self.substrings.clone();
+        self.replacements_for_node(self.file.root(), &mut replacements);
+        replacements.sort_by_key(|&(range, _)| (range.start(), range.end()));
+        let mut last_offset = tu(0);
+        for (range, text) in replacements {
+            // Edits inside of what is already replaced have no effect
+            if range.start() >= last_offset {
+                last_offset = range.end();
+                if text.is_empty() {
+                    edit_builder.delete(range);
+                } else {
+                    edit_builder.replace(range, text);
+                }
+            }
+        }
         // TODO: :(
         let mut edit = edit_builder.build();
         edit.ops.push(TextEditOp::Copy(TextRange::from_len(
@@ -59,19 +66,22 @@ impl<'f> FileEdit<'f> {
         edit
     }
 
-    fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
+    fn replacements_for_node(&self, node: Node<'f>, acc: &mut Vec<(TextRange, String)>) {
         if self.deleted.iter().find(|&&n| n == node).is_some() {
-            edit_builder.delete(node.range());
+            acc.push((node.range(), String::new()));
         } else if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
-            edit_builder.replace(node.range(), replacement.as_ref());
+            acc.push((node.range(), replacement.clone()));
         } else {
             for child in node.children() {
-                self.text_edit_for_node(child, edit_builder);
+                self.replacements_for_node(child, acc);
             }
         }
 
-        for &(_, ref text) in self.inserted.iter().filter(|&&(n, _)| n == node) {
-            edit_builder.insert(node.range().end(), text.as_ref());
-        }
+        let end = TextRange::from_len(node.range().end(), tu(0));
+        acc.extend(
+            self.inserted.iter()
+                .filter(|&&(n, _)| n == node)
+                .map(|&(_, ref text)| (end, text.clone()))
+        );
     }
 }
-- 
2.43.0


From fbfbe6d2d39e0ae036503f2e3eb2081e304aff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 11/46] fix: end an ast block at its closing brace

Its items were recovered with a skip that ran past the closing brace into
the following items.
---
 lang/fall/syntax/src/fall.fall | 6 +++---
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 22e1df1..9cf2dfb 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -257,11 +257,11 @@ fn parse_raw_string(s: &str) -> Option<usize> {
 "#########
 
 pub rule ast_def {
-  'ast' <commit> '{'
+  'ast' <commit>
+  <block
     <with_skip
       {'node' | 'class' | 'trait'}
-      {ast_node_def | ast_class_def | ast_trait_def}>*
-  '}'
+      {ast_node_def | ast_class_def | ast_trait_def}>*>
 }
 
 pub rule ast_node_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 45c5edc..7d5f426 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":220,"replaceable":false}},{"Pub":{"ty":51,"body":241,"replaceable":false}},{"Pub":{"ty":52,"body":248,"replaceable":false}},{"Pub":{"ty":53,"body":254,"replaceable":false}},{"Pub":{"ty":54,"body":257,"replaceable":false}},{"Pub":{"ty":55,"body":261,"replaceable":false}},{"Or":[265,268,270,272]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],1]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"ContextualToken":[3,"node"]},{"And":[[205],null]},{"ContextualToken":[4,"class"]},{"And":[[207],null]},{"ContextualToken":[5,"trait"]},{"And":[[209],null]},{"Or":[206,208,210]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[212,213,214]},{"WithSkip":[211,215]},{"Rep":216},{"Call":[21,[[1,217]]]},{"And":[[204,218],1]},{"Or":[219]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[225],null]},{"Token":20},{"Not":227},{"Not":228},{"And":[[229],null]},{"Or":[226,230]},{"And":[[224,231],null]},{"Or":[232]},{"Rep":233},{"And":[[223,234],null]},{"Or":[235]},{"Opt":236},{"Rep":31},{"Call":[21,[[1,238]]]},{"And":[[221,222,237,239],1]},{"Or":[240]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":244},{"Call":[21,[[1,245]]]},{"And":[[242,243,246],1]},{"Or":[247]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,251]]]},{"And":[[249,250,252],1]},{"Or":[253]},{"Token":31},{"And":[[255,32],null]},{"Or":[256]},{"Token":31},{"Opt":33},{"And":[[258,259],null]},{"Or":[260]},{"Token":15},{"Token":16},{"Token":31},{"And":[[262,263,264],null]},{"Token":16},{"Token":31},{"And":[[266,267],null]},{"Token":14},{"And":[[269],null]},{"Token":15},{"And":[[271],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 60f37121edb9ac24932fd47b576f78f033eaf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 12/46] fix: parse shifts with assignment as assignments

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 0f9f814..89bb5b2 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1074,7 +1074,7 @@ pub rule comparison {
 }
 
 rule cmp_op {
-  '==' | '!=' | '<' | '>' | '<=' | '>='
+  '==' | '!=' | '<' <not '<='> | '>' <not '>='> | '<=' | '>='
 }
 
 #[bin(4)]
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index bdc036e..1a81890 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1226,1228,1230,1232]},{"Pub":{"ty":195,"body":1236,"replaceable":false}},{"Pub":{"ty":196,"body":1240,"replaceable":false}},{"Pub":{"ty":197,"body":1243,"replaceable":false}},{"Pub":{"ty":197,"body":1245,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Or":[1253,1255]},{"Or":[1263]},{"Pub":{"ty":198,"body":1289,"replaceable":false}},{"Pub":{"ty":199,"body":1292,"replaceable":false}},{"Pub":{"ty":200,"body":1296,"replaceable":false}},{"Or":[1299]},{"Or":[1301]},{"Pub":{"ty":201,"body":1311,"replaceable":false}},{"Pub":{"ty":202,"body":1319,"replaceable":false}},{"Pub":{"ty":203,"body":1334,"replaceable":false}},{"Pub":{"ty":204,"body":1363,"replaceable":false}},{"Or":[1373]},{"Or":[1378]},{"Or":[1383]},{"Or":[1388]},{"Or":[1393]},{"Or":[1401]},{"Or":[1416]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"And":[[1225],null]},{"Token":42},{"And":[[1227],null]},{"Token":57},{"And":[[1229],null]},{"Token":56},{"And":[[1231],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1233]]]},{"And":[[75,1234,75],null]},{"Or":[1235]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"Call":[127,[[1,140]]]},{"And":[[75,1241,75],null]},{"Or":[1242]},{"And":[[140,75],null]},{"Or":[1244]},{"And":[[75,139],null]},{"Or":[1246]},{"Token":63},{"Not":76},{"And":[[1248,1249],null]},{"Or":[1250]},{"Token":63},{"And":[[1252],null]},{"Token":64},{"And":[[1254],null]},{"Not":76},{"Not":1256},{"Token":39},{"IsIn":0},{"And":[[1258,1259],null]},{"Or":[1260]},{"Not":1261},{"And":[[139,1257,1262],null]},{"Token":53},{"And":[[1264],null]},{"Token":74},{"And":[[1266],null]},{"Token":76},{"And":[[1268],null]},{"Token":68},{"And":[[1270],null]},{"Token":70},{"And":[[1272],null]},{"Token":72},{"And":[[1274],null]},{"Token":78},{"And":[[1276],null]},{"Token":80},{"And":[[1278],null]},{"Token":85},{"And":[[1280],null]},{"ContextualToken":[48,">>="]},{"And":[[1282],null]},{"ContextualToken":[46,"<<="]},{"And":[[1284],null]},{"Or":[1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285]},{"Call":[127,[[1,1286]]]},{"And":[[75,1287,75],null]},{"Or":[1288]},{"Token":65},{"And":[[1290,144],null]},{"Or":[1291]},{"Token":65},{"Token":82},{"And":[[1293,1294,144],null]},{"Or":[1295]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1297]]]},{"And":[[1298],null]},{"Rep":142},{"And":[[1300],null]},{"Token":92},{"Token":53},{"And":[[1303,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1305]]]},{"And":[[1306],null]},{"Or":[1304,1307]},{"Opt":1308},{"And":[[1302,1309],1]},{"Or":[1310]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1314},{"Rep":149},{"Call":[151,[[3,1316]]]},{"And":[[1312,1313,1315,1317],null]},{"Or":[1318]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1322},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1324,1325,1326],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1328,1329,1330],null]},{"Or":[1327,1331]},{"And":[[1320,1321,1323,1332],null]},{"Or":[1333]},{"Token":37},{"And":[[1335],null]},{"Token":38},{"And":[[1337],null]},{"Token":39},{"And":[[1339],null]},{"Token":40},{"And":[[1341],null]},{"Token":43},{"And":[[1343],null]},{"Token":44},{"And":[[1345],null]},{"Or":[1336,1338,1340,1342,1344,1346]},{"Not":1347},"Any",{"And":[[1348,1349],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1351,1352,1353],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1355,1356,1357],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1359,1360,1361],null]},{"Or":[1350,1354,1358,1362]},{"Var":2},"Eof",{"And":[[1365],null]},{"Token":61},{"And":[[1367],null]},{"Or":[1366,1368]},{"And":[[1364,1369],1]},{"Or":[1370]},{"Rep":1371},{"And":[[1372],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1374],[8,1375],[9,1376]]]},{"And":[[1377],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1379],[8,1380],[9,1381]]]},{"And":[[1382],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1384],[8,1385],[9,1386]]]},{"And":[[1387],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1389],[8,1390],[9,1391]]]},{"And":[[1392],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1395],[11,1396]]]},{"Var":9},{"Layer":[1397,1398]},{"Var":8},{"And":[[1394,1399,1400],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1403],[11,1404]]]},{"Var":11},{"And":[[1402,1405,1406],1]},{"Var":11},{"Not":1408},"Any",{"And":[[1409,1410],null]},{"Or":[1411]},{"And":[[1412],null]},{"Or":[1407,1413]},{"Rep":1414},{"And":[[1415],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 2cbeb6ccdd0bfaeb16945ecc5f886633b8a8cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 13/46] fix: a parameter pattern may start with self::

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 89bb5b2..800603b 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -188,7 +188,7 @@ pub rule lambda_value_param {
 }
 
 pub rule self_parameter {
-  {borrow | 'mut'}? 'self' <commit> {':' type_reference}? {',' | <eof>}
+  {borrow | 'mut'}? 'self' <not '::'> <commit> {':' type_reference}? {',' | <eof>}
 }
 test r"
 fn foo(&mut self: Box<Self>) {}
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 1a81890..33e36b4 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":283,"replaceable":false}},{"Pub":{"ty":103,"body":302,"replaceable":false}},{"Pub":{"ty":104,"body":307,"replaceable":false}},{"Pub":{"ty":105,"body":310,"replaceable":false}},{"Pub":{"ty":106,"body":317,"replaceable":false}},{"Pub":{"ty":107,"body":330,"replaceable":false}},{"Pub":{"ty":108,"body":339,"replaceable":false}},{"Pub":{"ty":109,"body":352,"replaceable":false}},{"Pub":{"ty":110,"body":360,"replaceable":false}},{"Pub":{"ty":111,"body":372,"replaceable":false}},{"Or":[373,374,375,376]},{"Or":[378,380,382,384,386,388,390,392,397]},{"Pub":{"ty":112,"body":407,"replaceable":false}},{"Pub":{"ty":113,"body":421,"replaceable":false}},{"Pub":{"ty":114,"body":425,"replaceable":false}},{"Pub":{"ty":115,"body":429,"replaceable":false}},{"Or":[437]},{"Pub":{"ty":116,"body":444,"replaceable":false}},{"Pub":{"ty":117,"body":448,"replaceable":false}},{"Or":[468]},{"Pub":{"ty":118,"body":473,"replaceable":false}},{"Pub":{"ty":119,"body":493,"replaceable":false}},{"Pub":{"ty":120,"body":503,"replaceable":false}},{"Pub":{"ty":121,"body":518,"replaceable":false}},{"Or":[519]},{"Or":[521]},{"Or":[523]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":526,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":530,"replaceable":false}},{"Pub":{"ty":122,"body":535,"replaceable":false}},{"Pub":{"ty":123,"body":542,"replaceable":false}},{"Pub":{"ty":124,"body":556,"replaceable":false}},{"Pub":{"ty":125,"body":582,"replaceable":false}},{"Pub":{"ty":126,"body":587,"replaceable":false}},{"Pub":{"ty":127,"body":591,"replaceable":false}},{"Pub":{"ty":128,"body":597,"replaceable":false}},{"Or":[598,599,600,601,602,603,604,605,606,607]},{"Pub":{"ty":129,"body":609,"replaceable":false}},{"Pub":{"ty":130,"body":611,"replaceable":false}},{"Pub":{"ty":131,"body":619,"replaceable":false}},{"Pub":{"ty":132,"body":622,"replaceable":false}},{"Pub":{"ty":133,"body":626,"replaceable":false}},{"Pub":{"ty":134,"body":632,"replaceable":true}},{"PubReplace":{"ty":135,"body":636}},{"Pub":{"ty":136,"body":639,"replaceable":false}},{"Pub":{"ty":137,"body":648,"replaceable":false}},{"Pub":{"ty":138,"body":655,"replaceable":false}},{"Pub":{"ty":100,"body":661,"replaceable":false}},{"Pub":{"ty":139,"body":664,"replaceable":false}},{"Or":[665,666,667,668,669,670,671]},{"Pub":{"ty":140,"body":674,"replaceable":false}},{"Pub":{"ty":141,"body":680,"replaceable":true}},{"PubReplace":{"ty":142,"body":692}},{"PubReplace":{"ty":143,"body":704}},{"Pub":{"ty":144,"body":711,"replaceable":false}},{"Pub":{"ty":145,"body":718,"replaceable":false}},{"Pub":{"ty":146,"body":720,"replaceable":false}},{"Pub":{"ty":147,"body":724,"replaceable":false}},{"Pub":{"ty":148,"body":730,"replaceable":true}},{"PubReplace":{"ty":149,"body":734}},{"Pub":{"ty":150,"body":739,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":768,"priority":999},{"ty":186,"op":769,"priority":999},{"ty":187,"op":770,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":745,"priority":999,"has_rhs":false},{"ty":178,"op":754,"priority":999,"has_rhs":false},{"ty":180,"op":762,"priority":999,"has_rhs":false},{"ty":181,"op":763,"priority":999,"has_rhs":false},{"ty":182,"op":764,"priority":999,"has_rhs":false},{"ty":183,"op":767,"priority":999,"has_rhs":false},{"ty":188,"op":778,"priority":11,"has_rhs":true},{"ty":189,"op":784,"priority":10,"has_rhs":true},{"ty":190,"op":790,"priority":9,"has_rhs":true},{"ty":191,"op":796,"priority":8,"has_rhs":true},{"ty":192,"op":798,"priority":7,"has_rhs":true},{"ty":193,"op":804,"priority":6,"has_rhs":true},{"ty":194,"op":805,"priority":5,"has_rhs":true},{"ty":195,"op":807,"priority":4,"has_rhs":true},{"ty":196,"op":809,"priority":3,"has_rhs":true},{"ty":197,"op":810,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":834,"priority":1,"has_rhs":true}]}},{"Or":[835,837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885]},{"Or":[887]},{"Or":[891]},{"Pub":{"ty":152,"body":902,"replaceable":false}},{"Pub":{"ty":153,"body":910,"replaceable":true}},{"PubReplace":{"ty":154,"body":923}},{"Pub":{"ty":155,"body":930,"replaceable":false}},{"Pub":{"ty":156,"body":934,"replaceable":false}},{"Pub":{"ty":157,"body":941,"replaceable":true}},{"PubReplace":{"ty":158,"body":946}},{"Pub":{"ty":159,"body":959,"replaceable":false}},{"Pub":{"ty":160,"body":971,"replaceable":false}},{"Or":[979]},{"Pub":{"ty":161,"body":983,"replaceable":false}},{"Pub":{"ty":162,"body":992,"replaceable":false}},{"Pub":{"ty":163,"body":1002,"replaceable":false}},{"Or":[1003,1004,1005,1006]},{"Or":[1008,1010,1011,1012]},{"Pub":{"ty":164,"body":1021,"replaceable":false}},{"Pub":{"ty":165,"body":1024,"replaceable":false}},{"Pub":{"ty":166,"body":1027,"replaceable":false}},{"Pub":{"ty":167,"body":1038,"replaceable":false}},{"Pub":{"ty":168,"body":1048,"replaceable":false}},{"Pub":{"ty":169,"body":1052,"replaceable":false}},{"Or":[1058]},{"Or":[1060]},{"Pub":{"ty":170,"body":1064,"replaceable":false}},{"Pub":{"ty":171,"body":1069,"replaceable":false}},{"Or":[1072]},{"Pub":{"ty":172,"body":1077,"replaceable":false}},{"Pub":{"ty":173,"body":1087,"replaceable":false}},{"Or":[1093]},{"Pub":{"ty":174,"body":1096,"replaceable":false}},{"Pub":{"ty":175,"body":1098,"replaceable":false}},{"Pub":{"ty":176,"body":1100,"replaceable":false}},{"Pub":{"ty":177,"body":1108,"replaceable":false}},{"Pub":{"ty":178,"body":1119,"replaceable":false}},{"Or":[1123]},{"Pub":{"ty":179,"body":1125,"replaceable":false}},{"Pub":{"ty":180,"body":1135,"replaceable":false}},{"Pub":{"ty":181,"body":1138,"replaceable":false}},{"Pub":{"ty":182,"body":1141,"replaceable":false}},{"Pub":{"ty":183,"body":1146,"replaceable":false}},{"Pub":{"ty":184,"body":1148,"replaceable":false}},{"Or":[1154]},{"Pub":{"ty":185,"body":1157,"replaceable":false}},{"Pub":{"ty":186,"body":1160,"replaceable":false}},{"Pub":{"ty":187,"body":1163,"replaceable":false}},{"Pub":{"ty":188,"body":1173,"replaceable":false}},{"Pub":{"ty":189,"body":1181,"replaceable":false}},{"Pub":{"ty":190,"body":1189,"replaceable":false}},{"Or":[1193,1197]},{"Pub":{"ty":191,"body":1205,"replaceable":false}},{"Pub":{"ty":192,"body":1209,"replaceable":false}},{"Pub":{"ty":193,"body":1217,"replaceable":false}},{"Pub":{"ty":194,"body":1220,"replaceable":false}},{"Or":[1222,1224,1228,1232,1234,1236]},{"Pub":{"ty":195,"body":1240,"replaceable":false}},{"Pub":{"ty":196,"body":1244,"replaceable":false}},{"Pub":{"ty":197,"body":1247,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1255,"replaceable":false}},{"Or":[1257,1259]},{"Or":[1267]},{"Pub":{"ty":198,"body":1293,"replaceable":false}},{"Pub":{"ty":199,"body":1296,"replaceable":false}},{"Pub":{"ty":200,"body":1300,"replaceable":false}},{"Or":[1303]},{"Or":[1305]},{"Pub":{"ty":201,"body":1315,"replaceable":false}},{"Pub":{"ty":202,"body":1323,"replaceable":false}},{"Pub":{"ty":203,"body":1338,"replaceable":false}},{"Pub":{"ty":204,"body":1367,"replaceable":false}},{"Or":[1377]},{"Or":[1382]},{"Or":[1387]},{"Or":[1392]},{"Or":[1397]},{"Or":[1405]},{"Or":[1420]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":59},{"And":[[273,49],null]},{"Or":[274]},{"Opt":275},{"Token":61},{"And":[[277],null]},"Eof",{"And":[[279],null]},{"Or":[278,280]},{"And":[[271,272,276,281],2]},{"Or":[282]},{"Token":11},{"And":[[284],null]},{"ContextualToken":[4,"union"]},{"And":[[286],null]},{"Or":[285,287]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,291]]]},{"And":[[292],null]},{"Token":58},{"And":[[294],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,296]]]},{"Token":58},{"And":[[297,298],null]},{"Or":[293,295,299]},{"And":[[288,289,290,300],1]},{"Or":[301]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[303,304,305,49],2]},{"Or":[306]},{"Opt":36},{"And":[[308,49],null]},{"Or":[309]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,314]]]},{"And":[[311,312,313,315],1]},{"Or":[316]},{"Token":92},{"Token":53},{"And":[[319,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,321]]]},{"And":[[322],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,324]]]},{"And":[[325],null]},{"Or":[320,323,326]},{"Opt":327},{"And":[[318,328],1]},{"Or":[329]},{"Token":13},{"Token":92},{"Token":58},{"And":[[333],null]},{"Call":[151,[[3,1]]]},{"And":[[335],null]},{"Or":[334,336]},{"And":[[331,332,337],1]},{"Or":[338]},{"Token":35},{"Opt":340},{"Token":17},{"Opt":31},{"Token":23},{"And":[[344,49],null]},{"Or":[345]},{"Opt":346},{"And":[[49,347],null]},{"Or":[348]},{"Opt":37},{"And":[[341,342,343,349,350,23],2]},{"Or":[351]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,353,354,355,356,357,358,23],3]},{"Or":[359]},{"Opt":36},{"And":[[145,361],null]},{"Or":[362]},{"Inject":[363,24]},{"And":[[364],null]},{"And":[[28],null]},{"Or":[365,366]},{"WithSkip":[25,367]},{"Rep":368},{"Call":[151,[[3,369]]]},{"And":[[370],null]},{"Or":[371]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[377],null]},{"Token":8},{"And":[[379],null]},{"Token":20},{"And":[[381],null]},{"Token":21},{"And":[[383],null]},{"Token":22},{"And":[[385],null]},{"Token":35},{"And":[[387],null]},{"Token":65},{"And":[[389],null]},{"Token":7},{"And":[[391],null]},{"Token":92},{"Token":82},{"And":[[393,394],null]},{"Or":[395]},{"And":[[396],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[401,49],null]},{"Or":[402]},{"Opt":403},{"Token":58},{"And":[[398,399,400,404,405],1]},{"Or":[406]},{"Token":21},{"And":[[408],null]},{"Token":22},{"And":[[410],null]},{"Or":[409,411]},{"Token":92},{"Token":59},{"Token":53},{"And":[[415,75],null]},{"Or":[416]},{"Opt":417},{"Token":58},{"And":[[412,413,414,49,418,419],1]},{"Or":[420]},{"And":[[147],null]},{"Token":58},{"And":[[148,423],null]},{"Or":[422,424]},{"Rep":30},{"Call":[151,[[3,426]]]},{"And":[[10,427],null]},{"Or":[428]},{"Opt":36},{"And":[[145,430],null]},{"Or":[431]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[433,434]},{"Inject":[432,435]},{"And":[[436],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[438,439],null]},{"Or":[440]},{"Call":[153,[[5,441]]]},{"And":[[442],null]},{"Or":[443]},{"Token":92},{"Opt":33},{"And":[[445,446],1]},{"Or":[447]},{"Token":59},{"Token":73},{"And":[[450],null]},"Eof",{"And":[[452],null]},{"Token":61},{"And":[[454],null]},{"Token":39},{"And":[[456],null]},{"Token":36},{"And":[[458],null]},{"Or":[455,457,459]},{"Not":460},{"Not":461},{"And":[[462],null]},{"Or":[451,453,463]},{"And":[[34,464],1]},{"Or":[465]},{"Rep":466},{"And":[[449,467],null]},{"Token":87},{"And":[[469],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[470,471,472]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[477],null]},"Eof",{"And":[[479],null]},{"Token":61},{"Not":481},{"Not":482},{"And":[[483],null]},{"Or":[478,480,484]},{"And":[[476,485],1]},{"Or":[486]},{"Rep":487},{"And":[[475,488],null]},{"Or":[489]},{"Opt":490},{"And":[[474,491],1]},{"Or":[492]},{"Token":10},{"Token":6},{"And":[[495],null]},{"Token":19},{"And":[[497],null]},{"Or":[496,498]},{"Call":[152,[[4,499]]]},{"Opt":500},{"And":[[494,501],null]},{"Or":[502]},{"Token":36},{"Token":61},{"And":[[505],null]},"Eof",{"And":[[507],null]},{"Token":39},{"Not":509},{"Not":510},{"And":[[511],null]},{"Or":[506,508,512]},{"And":[[49,33,513],null]},{"Or":[514]},{"Rep":515},{"And":[[504,516],1]},{"Or":[517]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[520],null]},{"Enter":[1,41]},{"And":[[522],null]},{"Token":60},{"And":[[524,45],null]},{"Or":[525]},{"Token":60},{"Opt":527},{"And":[[528,45],null]},{"Or":[529]},{"Token":60},{"And":[[531,45],null]},{"Or":[532]},{"And":[[41,533],null]},{"Or":[534]},{"Token":5},{"And":[[49,536,49],null]},{"Or":[537]},{"Call":[153,[[5,538]]]},{"Token":60},{"And":[[539,540,45],null]},{"Or":[541]},{"Token":92},{"And":[[543],null]},{"Token":18},{"And":[[545],null]},{"Token":19},{"And":[[547],null]},{"Or":[544,546,548]},{"And":[[46],null]},{"IsIn":3},{"And":[[551,47],null]},{"Or":[550,552]},{"Opt":553},{"And":[[549,554],null]},{"Or":[555]},{"IsIn":3},{"And":[[557],null]},{"IsIn":1},{"Token":60},{"And":[[559,560],null]},{"Or":[558,561]},{"Token":87},{"Call":[150,[[2,563]]]},{"Token":92},{"Token":53},{"And":[[565,566],null]},{"Or":[567]},{"Not":568},{"And":[[569,49],null]},{"Or":[570]},{"Call":[150,[[2,571]]]},{"Token":92},{"Token":53},{"And":[[573,574,49],null]},{"Or":[575]},{"Call":[150,[[2,576]]]},{"And":[[564,572,577],null]},{"Or":[578]},{"Call":[153,[[5,579]]]},{"And":[[562,580],null]},{"Or":[581]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,583]]]},{"Opt":9},{"And":[[584,585],null]},{"Or":[586]},{"Token":5},{"Token":92},{"And":[[588,589],null]},{"Or":[590]},{"Token":73},{"And":[[592,34],null]},{"Or":[593]},{"Rep":594},{"And":[[50,595],null]},{"Or":[596]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[608]},{"And":[[120,49],null]},{"Or":[610]},{"Token":67},{"Token":21},{"And":[[613],null]},{"Token":27},{"And":[[615],null]},{"Or":[614,616]},{"And":[[612,617,49],null]},{"Or":[618]},{"Token":81},{"And":[[620],null]},{"Or":[621]},{"Token":37},{"Token":38},{"And":[[623,624],null]},{"Or":[625]},{"Opt":57},{"And":[[49,627],null]},{"Or":[628]},{"Call":[152,[[4,629]]]},{"And":[[630],null]},{"Or":[631]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[633,634],null]},{"Or":[635]},{"Token":82},{"And":[[637],null]},{"Or":[638]},{"Token":58},{"And":[[640,75],null]},{"Or":[641]},{"Opt":642},{"And":[[49,643],null]},{"Or":[644]},{"Call":[154,[[6,645]]]},{"And":[[646],null]},{"Or":[647]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,651]]]},{"Opt":9},{"And":[[649,650,652,653],2]},{"Or":[654]},{"Token":59},{"And":[[63,656],null]},{"Or":[657]},{"Opt":658},{"And":[[659,49],null]},{"Or":[660]},{"Token":23},{"And":[[662,31,49],1]},{"Or":[663]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[672],null]},{"Or":[673]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[675,676]},{"Opt":677},{"And":[[40,678],null]},{"Or":[679]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":683},{"And":[[682,684],null]},{"Or":[685]},{"Opt":686},{"And":[[681,687],null]},{"Or":[688]},{"Call":[152,[[4,689]]]},{"And":[[690],null]},{"Or":[691]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":695},{"And":[[694,696],null]},{"Or":[697]},{"Opt":698},{"And":[[693,699],null]},{"Or":[700]},{"Call":[151,[[3,701]]]},{"And":[[702],null]},{"Or":[703]},{"Token":59},{"Not":705},{"And":[[69,706],null]},{"Token":92},{"Token":59},{"And":[[708,709,63],2]},{"Or":[707,710]},{"Token":28},{"Opt":712},{"Token":27},{"Opt":714},{"Token":92},{"And":[[713,715,716],null]},{"Or":[717]},{"And":[[79],null]},{"Or":[719]},{"Token":37},{"Token":38},{"And":[[721,722],null]},{"Or":[723]},{"Opt":73},{"And":[[63,725],null]},{"Or":[726]},{"Call":[152,[[4,727]]]},{"And":[[728],null]},{"Or":[729]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[731,732],null]},{"Or":[733]},{"Token":77},{"Token":27},{"Opt":736},{"And":[[735,737,63],null]},{"Or":[738]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":742},{"And":[[740,741,743,113],null]},{"Or":[744]},{"IsIn":2},{"Not":77},{"And":[[746,747],null]},{"IsIn":2},{"Not":749},{"And":[[750],null]},{"Or":[748,751]},{"And":[[752,113],null]},{"Or":[753]},{"Token":62},{"Token":92},{"And":[[756],null]},{"Token":89},{"And":[[758],null]},{"Or":[757,759]},{"And":[[755,760],null]},{"Or":[761]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[765,49],null]},{"Or":[766]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[771],null]},{"Token":69},{"And":[[773],null]},{"Token":71},{"And":[[775],null]},{"Or":[772,774,776]},{"Call":[127,[[1,777]]]},{"Token":73},{"And":[[779],null]},{"Token":75},{"And":[[781],null]},{"Or":[780,782]},{"Call":[127,[[1,783]]]},{"ContextualToken":[45,"<<"]},{"And":[[785],null]},{"ContextualToken":[47,">>"]},{"And":[[787],null]},{"Or":[786,788]},{"Call":[127,[[1,789]]]},{"Token":77},{"Token":77},{"Not":792},{"And":[[791,793],null]},{"Or":[794]},{"Call":[127,[[1,795]]]},{"Token":84},{"Call":[127,[[1,797]]]},{"Token":79},{"Token":79},{"Not":800},{"And":[[799,801],null]},{"Or":[802]},{"Call":[127,[[1,803]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,806]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,808]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[811],null]},{"Token":74},{"And":[[813],null]},{"Token":76},{"And":[[815],null]},{"Token":68},{"And":[[817],null]},{"Token":70},{"And":[[819],null]},{"Token":72},{"And":[[821],null]},{"Token":78},{"And":[[823],null]},{"Token":80},{"And":[[825],null]},{"Token":85},{"And":[[827],null]},{"ContextualToken":[48,">>="]},{"And":[[829],null]},{"ContextualToken":[46,"<<="]},{"And":[[831],null]},{"Or":[812,814,816,818,820,822,824,826,828,830,832]},{"Call":[127,[[1,833]]]},{"And":[[79],null]},{"Token":92},{"And":[[836],null]},{"Token":87},{"And":[[838],null]},{"Token":18},{"And":[[840],null]},{"Token":19},{"And":[[842],null]},{"Token":41},{"And":[[844],null]},{"Token":60},{"And":[[846],null]},{"Token":37},{"And":[[848],null]},{"Token":43},{"And":[[850],null]},{"Token":79},{"And":[[852],null]},{"Token":31},{"And":[[854],null]},{"Token":39},{"And":[[856],null]},{"Token":14},{"And":[[858],null]},{"Token":25},{"And":[[860],null]},{"Token":24},{"And":[[862],null]},{"Token":23},{"And":[[864],null]},{"Token":30},{"And":[[866],null]},{"Token":26},{"And":[[868],null]},{"Token":32},{"And":[[870],null]},{"Token":33},{"And":[[872],null]},{"Token":77},{"And":[[874],null]},{"Token":67},{"And":[[876],null]},{"Token":75},{"And":[[878],null]},{"Token":82},{"And":[[880],null]},{"Token":63},{"And":[[882],null]},{"Token":64},{"And":[[884],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[886],null]},{"Var":0},{"Exit":[2,888]},{"Exit":[0,889]},{"And":[[890],null]},{"Token":89},{"And":[[892],null]},{"Token":90},{"And":[[894],null]},{"Token":91},{"And":[[896],null]},{"Token":86},{"And":[[898],null]},{"Token":88},{"And":[[900],null]},{"Or":[893,895,897,899,901]},{"Token":92},{"Token":82},{"And":[[903,904],null]},{"Or":[905]},{"Not":906},{"Opt":81},{"And":[[907,40,908],null]},{"Or":[909]},{"IsIn":0},{"Not":911},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[914,915],null]},{"Or":[916]},{"Opt":917},{"And":[[913,918],null]},{"Or":[919]},{"Call":[151,[[3,920]]]},{"And":[[912,921],null]},{"Or":[922]},{"Token":92},{"Token":59},{"And":[[925,75],null]},{"Or":[926]},{"Opt":927},{"And":[[924,928],1]},{"Or":[929]},{"Token":37},{"Token":38},{"And":[[931,932],null]},{"Or":[933]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[935,936],null]},{"Or":[937]},{"Call":[152,[[4,938]]]},{"And":[[939],null]},{"Or":[940]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,943]]]},{"And":[[942,944],null]},{"Or":[945]},{"Token":58},{"And":[[947,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[949,950],null]},{"Or":[948,951]},{"Opt":952},{"And":[[75,953],null]},{"Or":[954]},{"Call":[78,[[0,955]]]},{"Call":[154,[[6,956]]]},{"And":[[957],null]},{"Or":[958]},{"Token":26},{"Opt":960},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[965,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[967],null]},{"Or":[966,968]},{"And":[[961,962,963,964,969],null]},{"Or":[970]},{"Token":61},{"And":[[972],null]},{"Token":79},{"Not":974},{"Not":975},{"And":[[976],null]},{"Or":[973,977]},{"And":[[13,978],1]},{"Token":31},{"Opt":75},{"And":[[980,981],null]},{"Or":[982]},{"Token":33},{"And":[[984],null]},{"Token":32},{"And":[[986],null]},{"Or":[985,987]},{"Token":87},{"Opt":989},{"And":[[988,990],null]},{"Or":[991]},{"Token":35},{"Opt":993},{"WithSkip":[93,92]},{"Rep":995},{"Call":[151,[[3,996]]]},{"And":[[994,997],null]},{"Or":[998]},{"Call":[78,[[0,999]]]},{"And":[[1000],null]},{"Or":[1001]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1007],null]},{"Token":58},{"And":[[1009],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1015,75],1]},{"Or":[1016]},{"Opt":1017},{"Token":58},{"And":[[1013,63,1014,1018,1019],1]},{"Or":[1020]},{"Token":59},{"And":[[1022,49],null]},{"Or":[1023]},{"Token":58},{"And":[[1025],null]},{"Or":[1026]},{"And":[[77],null]},"Eof",{"And":[[1029],null]},{"Token":58},{"And":[[1031],null]},{"Or":[1028,1030,1032]},{"And":[[75,1033],1]},{"Or":[1034]},{"Enter":[2,1035]},{"And":[[1036],null]},{"Or":[1037]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1041,1042]},{"And":[[1040,1043],null]},{"Or":[1044]},{"Opt":1045},{"And":[[1039,100,91,1046],1]},{"Or":[1047]},{"Opt":104},{"Token":25},{"And":[[1049,1050,100,91],2]},{"Or":[1051]},{"Token":9},{"Token":53},{"And":[[1053,63,1054],1]},{"Or":[1055]},{"Opt":1056},{"And":[[1057,101],1]},{"Enter":[0,75]},{"And":[[1059],null]},{"Opt":104},{"Token":24},{"And":[[1061,1062,91],2]},{"Or":[1063]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1065,1066,63,1067,101,91],2]},{"Or":[1068]},{"Token":87},{"Token":59},{"And":[[1070,1071],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1074]]]},{"And":[[1073,101,1075],1]},{"Or":[1076]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1080],null]},"Eof",{"And":[[1082],null]},{"And":[[77],null]},{"Or":[1081,1083,1084]},{"And":[[107,1078,1079,1085],1]},{"Or":[1086]},{"Token":79},{"And":[[1088,63],null]},{"Or":[1089]},{"Rep":1090},{"Opt":108},{"And":[[63,1091,1092],null]},{"Token":14},{"And":[[1094,75],null]},{"Or":[1095]},{"And":[[147],null]},{"Or":[1097]},{"And":[[148],null]},{"Or":[1099]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1103},{"And":[[1101,1102,1104,113],null]},{"Or":[1105]},{"And":[[75,1106],null]},{"Or":[1107]},{"IsIn":2},{"Not":77},{"And":[[1109,1110],null]},{"IsIn":2},{"Not":1112},{"And":[[1113],null]},{"Or":[1111,1114]},{"And":[[1115,113],null]},{"Or":[1116]},{"And":[[75,1117],null]},{"Or":[1118]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1120]]]},{"Call":[78,[[0,1121]]]},{"And":[[1122],null]},{"And":[[75],null]},{"Or":[1124]},{"Token":62},{"Token":92},{"And":[[1127],null]},{"Token":89},{"And":[[1129],null]},{"Or":[1128,1130]},{"And":[[1126,1131],null]},{"Or":[1132]},{"And":[[75,1133],null]},{"Or":[1134]},{"Call":[154,[[6,75]]]},{"And":[[75,1136],null]},{"Or":[1137]},{"Token":83},{"And":[[75,1139],null]},{"Or":[1140]},{"Token":5},{"And":[[1142,49],null]},{"Or":[1143]},{"And":[[75,1144],null]},{"Or":[1145]},{"And":[[120,75],null]},{"Or":[1147]},{"Token":77},{"Token":87},{"Opt":1150},{"Token":27},{"Opt":1152},{"And":[[1149,1151,1153],null]},{"Token":67},{"And":[[1155,75],null]},{"Or":[1156]},{"Token":75},{"And":[[1158,75],null]},{"Or":[1159]},{"Token":82},{"And":[[1161,75],null]},{"Or":[1162]},{"Token":67},{"And":[[1164],null]},{"Token":69},{"And":[[1166],null]},{"Token":71},{"And":[[1168],null]},{"Or":[1165,1167,1169]},{"Call":[127,[[1,1170]]]},{"And":[[75,1171,75],null]},{"Or":[1172]},{"Token":73},{"And":[[1174],null]},{"Token":75},{"And":[[1176],null]},{"Or":[1175,1177]},{"Call":[127,[[1,1178]]]},{"And":[[75,1179,75],null]},{"Or":[1180]},{"ContextualToken":[45,"<<"]},{"And":[[1182],null]},{"ContextualToken":[47,">>"]},{"And":[[1184],null]},{"Or":[1183,1185]},{"Call":[127,[[1,1186]]]},{"And":[[75,1187,75],null]},{"Or":[1188]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1190,1191,1192],null]},{"IsIn":2},{"Not":1194},{"Var":1},{"And":[[1195,1196],null]},{"Token":77},{"Token":77},{"Not":1199},{"And":[[1198,1200],null]},{"Or":[1201]},{"Call":[127,[[1,1202]]]},{"And":[[75,1203,75],null]},{"Or":[1204]},{"Token":84},{"Call":[127,[[1,1206]]]},{"And":[[75,1207,75],null]},{"Or":[1208]},{"Token":79},{"Token":79},{"Not":1211},{"And":[[1210,1212],null]},{"Or":[1213]},{"Call":[127,[[1,1214]]]},{"And":[[75,1215,75],null]},{"Or":[1216]},{"Call":[127,[[1,132]]]},{"And":[[75,1218,75],null]},{"Or":[1219]},{"Token":54},{"And":[[1221],null]},{"Token":55},{"And":[[1223],null]},{"Token":41},{"Token":57},{"Not":1226},{"And":[[1225,1227],null]},{"Token":42},{"Token":56},{"Not":1230},{"And":[[1229,1231],null]},{"Token":57},{"And":[[1233],null]},{"Token":56},{"And":[[1235],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1237]]]},{"And":[[75,1238,75],null]},{"Or":[1239]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1241]]]},{"And":[[75,1242,75],null]},{"Or":[1243]},{"Call":[127,[[1,140]]]},{"And":[[75,1245,75],null]},{"Or":[1246]},{"And":[[140,75],null]},{"Or":[1248]},{"And":[[75,139],null]},{"Or":[1250]},{"Token":63},{"Not":76},{"And":[[1252,1253],null]},{"Or":[1254]},{"Token":63},{"And":[[1256],null]},{"Token":64},{"And":[[1258],null]},{"Not":76},{"Not":1260},{"Token":39},{"IsIn":0},{"And":[[1262,1263],null]},{"Or":[1264]},{"Not":1265},{"And":[[139,1261,1266],null]},{"Token":53},{"And":[[1268],null]},{"Token":74},{"And":[[1270],null]},{"Token":76},{"And":[[1272],null]},{"Token":68},{"And":[[1274],null]},{"Token":70},{"And":[[1276],null]},{"Token":72},{"And":[[1278],null]},{"Token":78},{"And":[[1280],null]},{"Token":80},{"And":[[1282],null]},{"Token":85},{"And":[[1284],null]},{"ContextualToken":[48,">>="]},{"And":[[1286],null]},{"ContextualToken":[46,"<<="]},{"And":[[1288],null]},{"Or":[1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289]},{"Call":[127,[[1,1290]]]},{"And":[[75,1291,75],null]},{"Or":[1292]},{"Token":65},{"And":[[1294,144],null]},{"Or":[1295]},{"Token":65},{"Token":82},{"And":[[1297,1298,144],null]},{"Or":[1299]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1301]]]},{"And":[[1302],null]},{"Rep":142},{"And":[[1304],null]},{"Token":92},{"Token":53},{"And":[[1307,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1309]]]},{"And":[[1310],null]},{"Or":[1308,1311]},{"Opt":1312},{"And":[[1306,1313],1]},{"Or":[1314]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1318},{"Rep":149},{"Call":[151,[[3,1320]]]},{"And":[[1316,1317,1319,1321],null]},{"Or":[1322]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1326},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1328,1329,1330],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1332,1333,1334],null]},{"Or":[1331,1335]},{"And":[[1324,1325,1327,1336],null]},{"Or":[1337]},{"Token":37},{"And":[[1339],null]},{"Token":38},{"And":[[1341],null]},{"Token":39},{"And":[[1343],null]},{"Token":40},{"And":[[1345],null]},{"Token":43},{"And":[[1347],null]},{"Token":44},{"And":[[1349],null]},{"Or":[1340,1342,1344,1346,1348,1350]},{"Not":1351},"Any",{"And":[[1352,1353],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1355,1356,1357],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1359,1360,1361],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1363,1364,1365],null]},{"Or":[1354,1358,1362,1366]},{"Var":2},"Eof",{"And":[[1369],null]},{"Token":61},{"And":[[1371],null]},{"Or":[1370,1372]},{"And":[[1368,1373],1]},{"Or":[1374]},{"Rep":1375},{"And":[[1376],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1378],[8,1379],[9,1380]]]},{"And":[[1381],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1383],[8,1384],[9,1385]]]},{"And":[[1386],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1388],[8,1389],[9,1390]]]},{"And":[[1391],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1393],[8,1394],[9,1395]]]},{"And":[[1396],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1399],[11,1400]]]},{"Var":9},{"Layer":[1401,1402]},{"Var":8},{"And":[[1398,1403,1404],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1407],[11,1408]]]},{"Var":11},{"And":[[1406,1409,1410],1]},{"Var":11},{"Not":1412},"Any",{"And":[[1413,1414],null]},{"Or":[1415]},{"And":[[1416],null]},{"Or":[1411,1417]},{"Rep":1418},{"And":[[1419],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Or":[600,601,602,603,604,605,606,607,608,609]},{"Pub":{"ty":129,"body":611,"replaceable":false}},{"Pub":{"ty":130,"body":613,"replaceable":false}},{"Pub":{"ty":131,"body":621,"replaceable":false}},{"Pub":{"ty":132,"body":624,"replaceable":false}},{"Pub":{"ty":133,"body":628,"replaceable":false}},{"Pub":{"ty":134,"body":634,"replaceable":true}},{"PubReplace":{"ty":135,"body":638}},{"Pub":{"ty":136,"body":641,"replaceable":false}},{"Pub":{"ty":137,"body":650,"replaceable":false}},{"Pub":{"ty":138,"body":657,"replaceable":false}},{"Pub":{"ty":100,"body":663,"replaceable":false}},{"Pub":{"ty":139,"body":666,"replaceable":false}},{"Or":[667,668,669,670,671,672,673]},{"Pub":{"ty":140,"body":676,"replaceable":false}},{"Pub":{"ty":141,"body":682,"replaceable":true}},{"PubReplace":{"ty":142,"body":694}},{"PubReplace":{"ty":143,"body":706}},{"Pub":{"ty":144,"body":713,"replaceable":false}},{"Pub":{"ty":145,"body":720,"replaceable":false}},{"Pub":{"ty":146,"body":722,"replaceable":false}},{"Pub":{"ty":147,"body":726,"replaceable":false}},{"Pub":{"ty":148,"body":732,"replaceable":true}},{"PubReplace":{"ty":149,"body":736}},{"Pub":{"ty":150,"body":741,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":747,"priority":999,"has_rhs":false},{"ty":178,"op":756,"priority":999,"has_rhs":false},{"ty":180,"op":764,"priority":999,"has_rhs":false},{"ty":181,"op":765,"priority":999,"has_rhs":false},{"ty":182,"op":766,"priority":999,"has_rhs":false},{"ty":183,"op":769,"priority":999,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":786,"priority":10,"has_rhs":true},{"ty":190,"op":792,"priority":9,"has_rhs":true},{"ty":191,"op":798,"priority":8,"has_rhs":true},{"ty":192,"op":800,"priority":7,"has_rhs":true},{"ty":193,"op":806,"priority":6,"has_rhs":true},{"ty":194,"op":807,"priority":5,"has_rhs":true},{"ty":195,"op":809,"priority":4,"has_rhs":true},{"ty":196,"op":811,"priority":3,"has_rhs":true},{"ty":197,"op":812,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":836,"priority":1,"has_rhs":true}]}},{"Or":[837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887]},{"Or":[889]},{"Or":[893]},{"Pub":{"ty":152,"body":904,"replaceable":false}},{"Pub":{"ty":153,"body":912,"replaceable":true}},{"PubReplace":{"ty":154,"body":925}},{"Pub":{"ty":155,"body":932,"replaceable":false}},{"Pub":{"ty":156,"body":936,"replaceable":false}},{"Pub":{"ty":157,"body":943,"replaceable":true}},{"PubReplace":{"ty":158,"body":948}},{"Pub":{"ty":159,"body":961,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1040,"replaceable":false}},{"Pub":{"ty":168,"body":1050,"replaceable":false}},{"Pub":{"ty":169,"body":1054,"replaceable":false}},{"Or":[1060]},{"Or":[1062]},{"Pub":{"ty":170,"body":1066,"replaceable":false}},{"Pub":{"ty":171,"body":1071,"replaceable":false}},{"Or":[1074]},{"Pub":{"ty":172,"body":1079,"replaceable":false}},{"Pub":{"ty":173,"body":1089,"replaceable":false}},{"Or":[1095]},{"Pub":{"ty":174,"body":1098,"replaceable":false}},{"Pub":{"ty":175,"body":1100,"replaceable":false}},{"Pub":{"ty":176,"body":1102,"replaceable":false}},{"Pub":{"ty":177,"body":1110,"replaceable":false}},{"Pub":{"ty":178,"body":1121,"replaceable":false}},{"Or":[1125]},{"Pub":{"ty":179,"body":1127,"replaceable":false}},{"Pub":{"ty":180,"body":1137,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1150,"replaceable":false}},{"Or":[1156]},{"Pub":{"ty":185,"body":1159,"replaceable":false}},{"Pub":{"ty":186,"body":1162,"replaceable":false}},{"Pub":{"ty":187,"body":1165,"replaceable":false}},{"Pub":{"ty":188,"body":1175,"replaceable":false}},{"Pub":{"ty":189,"body":1183,"replaceable":false}},{"Pub":{"ty":190,"body":1191,"replaceable":false}},{"Or":[1195,1199]},{"Pub":{"ty":191,"body":1207,"replaceable":false}},{"Pub":{"ty":192,"body":1211,"replaceable":false}},{"Pub":{"ty":193,"body":1219,"replaceable":false}},{"Pub":{"ty":194,"body":1222,"replaceable":false}},{"Or":[1224,1226,1230,1234,1236,1238]},{"Pub":{"ty":195,"body":1242,"replaceable":false}},{"Pub":{"ty":196,"body":1246,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Or":[1259,1261]},{"Or":[1269]},{"Pub":{"ty":198,"body":1295,"replaceable":false}},{"Pub":{"ty":199,"body":1298,"replaceable":false}},{"Pub":{"ty":200,"body":1302,"replaceable":false}},{"Or":[1305]},{"Or":[1307]},{"Pub":{"ty":201,"body":1317,"replaceable":false}},{"Pub":{"ty":202,"body":1325,"replaceable":false}},{"Pub":{"ty":203,"body":1340,"replaceable":false}},{"Pub":{"ty":204,"body":1369,"replaceable":false}},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1407]},{"Or":[1422]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":60},{"Not":273},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[271,272,274,278,283],3]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,323]]]},{"And":[[324],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,75],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[50,597],null]},{"Or":[598]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[610]},{"And":[[120,49],null]},{"Or":[612]},{"Token":67},{"Token":21},{"And":[[615],null]},{"Token":27},{"And":[[617],null]},{"Or":[616,618]},{"And":[[614,619,49],null]},{"Or":[620]},{"Token":81},{"And":[[622],null]},{"Or":[623]},{"Token":37},{"Token":38},{"And":[[625,626],null]},{"Or":[627]},{"Opt":57},{"And":[[49,629],null]},{"Or":[630]},{"Call":[152,[[4,631]]]},{"And":[[632],null]},{"Or":[633]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[635,636],null]},{"Or":[637]},{"Token":82},{"And":[[639],null]},{"Or":[640]},{"Token":58},{"And":[[642,75],null]},{"Or":[643]},{"Opt":644},{"And":[[49,645],null]},{"Or":[646]},{"Call":[154,[[6,647]]]},{"And":[[648],null]},{"Or":[649]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,653]]]},{"Opt":9},{"And":[[651,652,654,655],2]},{"Or":[656]},{"Token":59},{"And":[[63,658],null]},{"Or":[659]},{"Opt":660},{"And":[[661,49],null]},{"Or":[662]},{"Token":23},{"And":[[664,31,49],1]},{"Or":[665]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[674],null]},{"Or":[675]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[677,678]},{"Opt":679},{"And":[[40,680],null]},{"Or":[681]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":685},{"And":[[684,686],null]},{"Or":[687]},{"Opt":688},{"And":[[683,689],null]},{"Or":[690]},{"Call":[152,[[4,691]]]},{"And":[[692],null]},{"Or":[693]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":697},{"And":[[696,698],null]},{"Or":[699]},{"Opt":700},{"And":[[695,701],null]},{"Or":[702]},{"Call":[151,[[3,703]]]},{"And":[[704],null]},{"Or":[705]},{"Token":59},{"Not":707},{"And":[[69,708],null]},{"Token":92},{"Token":59},{"And":[[710,711,63],2]},{"Or":[709,712]},{"Token":28},{"Opt":714},{"Token":27},{"Opt":716},{"Token":92},{"And":[[715,717,718],null]},{"Or":[719]},{"And":[[79],null]},{"Or":[721]},{"Token":37},{"Token":38},{"And":[[723,724],null]},{"Or":[725]},{"Opt":73},{"And":[[63,727],null]},{"Or":[728]},{"Call":[152,[[4,729]]]},{"And":[[730],null]},{"Or":[731]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[733,734],null]},{"Or":[735]},{"Token":77},{"Token":27},{"Opt":738},{"And":[[737,739,63],null]},{"Or":[740]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":744},{"And":[[742,743,745,113],null]},{"Or":[746]},{"IsIn":2},{"Not":77},{"And":[[748,749],null]},{"IsIn":2},{"Not":751},{"And":[[752],null]},{"Or":[750,753]},{"And":[[754,113],null]},{"Or":[755]},{"Token":62},{"Token":92},{"And":[[758],null]},{"Token":89},{"And":[[760],null]},{"Or":[759,761]},{"And":[[757,762],null]},{"Or":[763]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[767,49],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Call":[127,[[1,779]]]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"Call":[127,[[1,785]]]},{"ContextualToken":[45,"<<"]},{"And":[[787],null]},{"ContextualToken":[47,">>"]},{"And":[[789],null]},{"Or":[788,790]},{"Call":[127,[[1,791]]]},{"Token":77},{"Token":77},{"Not":794},{"And":[[793,795],null]},{"Or":[796]},{"Call":[127,[[1,797]]]},{"Token":84},{"Call":[127,[[1,799]]]},{"Token":79},{"Token":79},{"Not":802},{"And":[[801,803],null]},{"Or":[804]},{"Call":[127,[[1,805]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,808]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,810]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[813],null]},{"Token":74},{"And":[[815],null]},{"Token":76},{"And":[[817],null]},{"Token":68},{"And":[[819],null]},{"Token":70},{"And":[[821],null]},{"Token":72},{"And":[[823],null]},{"Token":78},{"And":[[825],null]},{"Token":80},{"And":[[827],null]},{"Token":85},{"And":[[829],null]},{"ContextualToken":[48,">>="]},{"And":[[831],null]},{"ContextualToken":[46,"<<="]},{"And":[[833],null]},{"Or":[814,816,818,820,822,824,826,828,830,832,834]},{"Call":[127,[[1,835]]]},{"And":[[79],null]},{"Token":92},{"And":[[838],null]},{"Token":87},{"And":[[840],null]},{"Token":18},{"And":[[842],null]},{"Token":19},{"And":[[844],null]},{"Token":41},{"And":[[846],null]},{"Token":60},{"And":[[848],null]},{"Token":37},{"And":[[850],null]},{"Token":43},{"And":[[852],null]},{"Token":79},{"And":[[854],null]},{"Token":31},{"And":[[856],null]},{"Token":39},{"And":[[858],null]},{"Token":14},{"And":[[860],null]},{"Token":25},{"And":[[862],null]},{"Token":24},{"And":[[864],null]},{"Token":23},{"And":[[866],null]},{"Token":30},{"And":[[868],null]},{"Token":26},{"And":[[870],null]},{"Token":32},{"And":[[872],null]},{"Token":33},{"And":[[874],null]},{"Token":77},{"And":[[876],null]},{"Token":67},{"And":[[878],null]},{"Token":75},{"And":[[880],null]},{"Token":82},{"And":[[882],null]},{"Token":63},{"And":[[884],null]},{"Token":64},{"And":[[886],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[888],null]},{"Var":0},{"Exit":[2,890]},{"Exit":[0,891]},{"And":[[892],null]},{"Token":89},{"And":[[894],null]},{"Token":90},{"And":[[896],null]},{"Token":91},{"And":[[898],null]},{"Token":86},{"And":[[900],null]},{"Token":88},{"And":[[902],null]},{"Or":[895,897,899,901,903]},{"Token":92},{"Token":82},{"And":[[905,906],null]},{"Or":[907]},{"Not":908},{"Opt":81},{"And":[[909,40,910],null]},{"Or":[911]},{"IsIn":0},{"Not":913},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[916,917],null]},{"Or":[918]},{"Opt":919},{"And":[[915,920],null]},{"Or":[921]},{"Call":[151,[[3,922]]]},{"And":[[914,923],null]},{"Or":[924]},{"Token":92},{"Token":59},{"And":[[927,75],null]},{"Or":[928]},{"Opt":929},{"And":[[926,930],1]},{"Or":[931]},{"Token":37},{"Token":38},{"And":[[933,934],null]},{"Or":[935]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[937,938],null]},{"Or":[939]},{"Call":[152,[[4,940]]]},{"And":[[941],null]},{"Or":[942]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,945]]]},{"And":[[944,946],null]},{"Or":[947]},{"Token":58},{"And":[[949,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[951,952],null]},{"Or":[950,953]},{"Opt":954},{"And":[[75,955],null]},{"Or":[956]},{"Call":[78,[[0,957]]]},{"Call":[154,[[6,958]]]},{"And":[[959],null]},{"Or":[960]},{"Token":26},{"Opt":962},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[967,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[969],null]},{"Or":[968,970]},{"And":[[963,964,965,966,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":75},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[93,92]},{"Rep":997},{"Call":[151,[[3,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[78,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1017,75],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,63,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[77],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1030,1032,1034]},{"And":[[75,1035],1]},{"Or":[1036]},{"Enter":[2,1037]},{"And":[[1038],null]},{"Or":[1039]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1043,1044]},{"And":[[1042,1045],null]},{"Or":[1046]},{"Opt":1047},{"And":[[1041,100,91,1048],1]},{"Or":[1049]},{"Opt":104},{"Token":25},{"And":[[1051,1052,100,91],2]},{"Or":[1053]},{"Token":9},{"Token":53},{"And":[[1055,63,1056],1]},{"Or":[1057]},{"Opt":1058},{"And":[[1059,101],1]},{"Enter":[0,75]},{"And":[[1061],null]},{"Opt":104},{"Token":24},{"And":[[1063,1064,91],2]},{"Or":[1065]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1067,1068,63,1069,101,91],2]},{"Or":[1070]},{"Token":87},{"Token":59},{"And":[[1072,1073],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1076]]]},{"And":[[1075,101,1077],1]},{"Or":[1078]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"And":[[77],null]},{"Or":[1083,1085,1086]},{"And":[[107,1080,1081,1087],1]},{"Or":[1088]},{"Token":79},{"And":[[1090,63],null]},{"Or":[1091]},{"Rep":1092},{"Opt":108},{"And":[[63,1093,1094],null]},{"Token":14},{"And":[[1096,75],null]},{"Or":[1097]},{"And":[[147],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1105},{"And":[[1103,1104,1106,113],null]},{"Or":[1107]},{"And":[[75,1108],null]},{"Or":[1109]},{"IsIn":2},{"Not":77},{"And":[[1111,1112],null]},{"IsIn":2},{"Not":1114},{"And":[[1115],null]},{"Or":[1113,1116]},{"And":[[1117,113],null]},{"Or":[1118]},{"And":[[75,1119],null]},{"Or":[1120]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1122]]]},{"Call":[78,[[0,1123]]]},{"And":[[1124],null]},{"And":[[75],null]},{"Or":[1126]},{"Token":62},{"Token":92},{"And":[[1129],null]},{"Token":89},{"And":[[1131],null]},{"Or":[1130,1132]},{"And":[[1128,1133],null]},{"Or":[1134]},{"And":[[75,1135],null]},{"Or":[1136]},{"Call":[154,[[6,75]]]},{"And":[[75,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[75,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,49],null]},{"Or":[1145]},{"And":[[75,1146],null]},{"Or":[1147]},{"And":[[120,75],null]},{"Or":[1149]},{"Token":77},{"Token":87},{"Opt":1152},{"Token":27},{"Opt":1154},{"And":[[1151,1153,1155],null]},{"Token":67},{"And":[[1157,75],null]},{"Or":[1158]},{"Token":75},{"And":[[1160,75],null]},{"Or":[1161]},{"Token":82},{"And":[[1163,75],null]},{"Or":[1164]},{"Token":67},{"And":[[1166],null]},{"Token":69},{"And":[[1168],null]},{"Token":71},{"And":[[1170],null]},{"Or":[1167,1169,1171]},{"Call":[127,[[1,1172]]]},{"And":[[75,1173,75],null]},{"Or":[1174]},{"Token":73},{"And":[[1176],null]},{"Token":75},{"And":[[1178],null]},{"Or":[1177,1179]},{"Call":[127,[[1,1180]]]},{"And":[[75,1181,75],null]},{"Or":[1182]},{"ContextualToken":[45,"<<"]},{"And":[[1184],null]},{"ContextualToken":[47,">>"]},{"And":[[1186],null]},{"Or":[1185,1187]},{"Call":[127,[[1,1188]]]},{"And":[[75,1189,75],null]},{"Or":[1190]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1192,1193,1194],null]},{"IsIn":2},{"Not":1196},{"Var":1},{"And":[[1197,1198],null]},{"Token":77},{"Token":77},{"Not":1201},{"And":[[1200,1202],null]},{"Or":[1203]},{"Call":[127,[[1,1204]]]},{"And":[[75,1205,75],null]},{"Or":[1206]},{"Token":84},{"Call":[127,[[1,1208]]]},{"And":[[75,1209,75],null]},{"Or":[1210]},{"Token":79},{"Token":79},{"Not":1213},{"And":[[1212,1214],null]},{"Or":[1215]},{"Call":[127,[[1,1216]]]},{"And":[[75,1217,75],null]},{"Or":[1218]},{"Call":[127,[[1,132]]]},{"And":[[75,1220,75],null]},{"Or":[1221]},{"Token":54},{"And":[[1223],null]},{"Token":55},{"And":[[1225],null]},{"Token":41},{"Token":57},{"Not":1228},{"And":[[1227,1229],null]},{"Token":42},{"Token":56},{"Not":1232},{"And":[[1231,1233],null]},{"Token":57},{"And":[[1235],null]},{"Token":56},{"And":[[1237],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1239]]]},{"And":[[75,1240,75],null]},{"Or":[1241]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1243]]]},{"And":[[75,1244,75],null]},{"Or":[1245]},{"Call":[127,[[1,140]]]},{"And":[[75,1247,75],null]},{"Or":[1248]},{"And":[[140,75],null]},{"Or":[1250]},{"And":[[75,139],null]},{"Or":[1252]},{"Token":63},{"Not":76},{"And":[[1254,1255],null]},{"Or":[1256]},{"Token":63},{"And":[[1258],null]},{"Token":64},{"And":[[1260],null]},{"Not":76},{"Not":1262},{"Token":39},{"IsIn":0},{"And":[[1264,1265],null]},{"Or":[1266]},{"Not":1267},{"And":[[139,1263,1268],null]},{"Token":53},{"And":[[1270],null]},{"Token":74},{"And":[[1272],null]},{"Token":76},{"And":[[1274],null]},{"Token":68},{"And":[[1276],null]},{"Token":70},{"And":[[1278],null]},{"Token":72},{"And":[[1280],null]},{"Token":78},{"And":[[1282],null]},{"Token":80},{"And":[[1284],null]},{"Token":85},{"And":[[1286],null]},{"ContextualToken":[48,">>="]},{"And":[[1288],null]},{"ContextualToken":[46,"<<="]},{"And":[[1290],null]},{"Or":[1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291]},{"Call":[127,[[1,1292]]]},{"And":[[75,1293,75],null]},{"Or":[1294]},{"Token":65},{"And":[[1296,144],null]},{"Or":[1297]},{"Token":65},{"Token":82},{"And":[[1299,1300,144],null]},{"Or":[1301]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1303]]]},{"And":[[1304],null]},{"Rep":142},{"And":[[1306],null]},{"Token":92},{"Token":53},{"And":[[1309,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1311]]]},{"And":[[1312],null]},{"Or":[1310,1313]},{"Opt":1314},{"And":[[1308,1315],1]},{"Or":[1316]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1320},{"Rep":149},{"Call":[151,[[3,1322]]]},{"And":[[1318,1319,1321,1323],null]},{"Or":[1324]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1328},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1330,1331,1332],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1334,1335,1336],null]},{"Or":[1333,1337]},{"And":[[1326,1327,1329,1338],null]},{"Or":[1339]},{"Token":37},{"And":[[1341],null]},{"Token":38},{"And":[[1343],null]},{"Token":39},{"And":[[1345],null]},{"Token":40},{"And":[[1347],null]},{"Token":43},{"And":[[1349],null]},{"Token":44},{"And":[[1351],null]},{"Or":[1342,1344,1346,1348,1350,1352]},{"Not":1353},"Any",{"And":[[1354,1355],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1357,1358,1359],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1361,1362,1363],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1365,1366,1367],null]},{"Or":[1356,1360,1364,1368]},{"Var":2},"Eof",{"And":[[1371],null]},{"Token":61},{"And":[[1373],null]},{"Or":[1372,1374]},{"And":[[1370,1375],1]},{"Or":[1376]},{"Rep":1377},{"And":[[1378],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1380],[8,1381],[9,1382]]]},{"And":[[1383],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1401],[11,1402]]]},{"Var":9},{"Layer":[1403,1404]},{"Var":8},{"And":[[1400,1405,1406],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1409],[11,1410]]]},{"Var":11},{"And":[[1408,1411,1412],1]},{"Var":11},{"Not":1414},"Any",{"And":[[1415,1416],null]},{"Or":[1417]},{"And":[[1418],null]},{"Or":[1413,1419]},{"Rep":1420},{"And":[[1421],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 5dd7de56a5bc5fd2811c1d94a6014f3a8868484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 14/46] fix: prefix operators bind tighter than casts

---
 lang/rust/syntax/src/rust.fall | 2 +-
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index 800603b..d720f94 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -1010,7 +1010,7 @@ test r"
 fn main() { -x??; }
 "
 
-#[postfix]
+#[postfix(12)]
 pub rule cast_expr {
   expr {'as' type_reference}
 }
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index 33e36b4..d1dffcc 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Or":[600,601,602,603,604,605,606,607,608,609]},{"Pub":{"ty":129,"body":611,"replaceable":false}},{"Pub":{"ty":130,"body":613,"replaceable":false}},{"Pub":{"ty":131,"body":621,"replaceable":false}},{"Pub":{"ty":132,"body":624,"replaceable":false}},{"Pub":{"ty":133,"body":628,"replaceable":false}},{"Pub":{"ty":134,"body":634,"replaceable":true}},{"PubReplace":{"ty":135,"body":638}},{"Pub":{"ty":136,"body":641,"replaceable":false}},{"Pub":{"ty":137,"body":650,"replaceable":false}},{"Pub":{"ty":138,"body":657,"replaceable":false}},{"Pub":{"ty":100,"body":663,"replaceable":false}},{"Pub":{"ty":139,"body":666,"replaceable":false}},{"Or":[667,668,669,670,671,672,673]},{"Pub":{"ty":140,"body":676,"replaceable":false}},{"Pub":{"ty":141,"body":682,"replaceable":true}},{"PubReplace":{"ty":142,"body":694}},{"PubReplace":{"ty":143,"body":706}},{"Pub":{"ty":144,"body":713,"replaceable":false}},{"Pub":{"ty":145,"body":720,"replaceable":false}},{"Pub":{"ty":146,"body":722,"replaceable":false}},{"Pub":{"ty":147,"body":726,"replaceable":false}},{"Pub":{"ty":148,"body":732,"replaceable":true}},{"PubReplace":{"ty":149,"body":736}},{"Pub":{"ty":150,"body":741,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":747,"priority":999,"has_rhs":false},{"ty":178,"op":756,"priority":999,"has_rhs":false},{"ty":180,"op":764,"priority":999,"has_rhs":false},{"ty":181,"op":765,"priority":999,"has_rhs":false},{"ty":182,"op":766,"priority":999,"has_rhs":false},{"ty":183,"op":769,"priority":999,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":786,"priority":10,"has_rhs":true},{"ty":190,"op":792,"priority":9,"has_rhs":true},{"ty":191,"op":798,"priority":8,"has_rhs":true},{"ty":192,"op":800,"priority":7,"has_rhs":true},{"ty":193,"op":806,"priority":6,"has_rhs":true},{"ty":194,"op":807,"priority":5,"has_rhs":true},{"ty":195,"op":809,"priority":4,"has_rhs":true},{"ty":196,"op":811,"priority":3,"has_rhs":true},{"ty":197,"op":812,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":836,"priority":1,"has_rhs":true}]}},{"Or":[837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887]},{"Or":[889]},{"Or":[893]},{"Pub":{"ty":152,"body":904,"replaceable":false}},{"Pub":{"ty":153,"body":912,"replaceable":true}},{"PubReplace":{"ty":154,"body":925}},{"Pub":{"ty":155,"body":932,"replaceable":false}},{"Pub":{"ty":156,"body":936,"replaceable":false}},{"Pub":{"ty":157,"body":943,"replaceable":true}},{"PubReplace":{"ty":158,"body":948}},{"Pub":{"ty":159,"body":961,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1040,"replaceable":false}},{"Pub":{"ty":168,"body":1050,"replaceable":false}},{"Pub":{"ty":169,"body":1054,"replaceable":false}},{"Or":[1060]},{"Or":[1062]},{"Pub":{"ty":170,"body":1066,"replaceable":false}},{"Pub":{"ty":171,"body":1071,"replaceable":false}},{"Or":[1074]},{"Pub":{"ty":172,"body":1079,"replaceable":false}},{"Pub":{"ty":173,"body":1089,"replaceable":false}},{"Or":[1095]},{"Pub":{"ty":174,"body":1098,"replaceable":false}},{"Pub":{"ty":175,"body":1100,"replaceable":false}},{"Pub":{"ty":176,"body":1102,"replaceable":false}},{"Pub":{"ty":177,"body":1110,"replaceable":false}},{"Pub":{"ty":178,"body":1121,"replaceable":false}},{"Or":[1125]},{"Pub":{"ty":179,"body":1127,"replaceable":false}},{"Pub":{"ty":180,"body":1137,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1150,"replaceable":false}},{"Or":[1156]},{"Pub":{"ty":185,"body":1159,"replaceable":false}},{"Pub":{"ty":186,"body":1162,"replaceable":false}},{"Pub":{"ty":187,"body":1165,"replaceable":false}},{"Pub":{"ty":188,"body":1175,"replaceable":false}},{"Pub":{"ty":189,"body":1183,"replaceable":false}},{"Pub":{"ty":190,"body":1191,"replaceable":false}},{"Or":[1195,1199]},{"Pub":{"ty":191,"body":1207,"replaceable":false}},{"Pub":{"ty":192,"body":1211,"replaceable":false}},{"Pub":{"ty":193,"body":1219,"replaceable":false}},{"Pub":{"ty":194,"body":1222,"replaceable":false}},{"Or":[1224,1226,1230,1234,1236,1238]},{"Pub":{"ty":195,"body":1242,"replaceable":false}},{"Pub":{"ty":196,"body":1246,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Or":[1259,1261]},{"Or":[1269]},{"Pub":{"ty":198,"body":1295,"replaceable":false}},{"Pub":{"ty":199,"body":1298,"replaceable":false}},{"Pub":{"ty":200,"body":1302,"replaceable":false}},{"Or":[1305]},{"Or":[1307]},{"Pub":{"ty":201,"body":1317,"replaceable":false}},{"Pub":{"ty":202,"body":1325,"replaceable":false}},{"Pub":{"ty":203,"body":1340,"replaceable":false}},{"Pub":{"ty":204,"body":1369,"replaceable":false}},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1407]},{"Or":[1422]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":60},{"Not":273},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[271,272,274,278,283],3]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,323]]]},{"And":[[324],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,75],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[50,597],null]},{"Or":[598]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[610]},{"And":[[120,49],null]},{"Or":[612]},{"Token":67},{"Token":21},{"And":[[615],null]},{"Token":27},{"And":[[617],null]},{"Or":[616,618]},{"And":[[614,619,49],null]},{"Or":[620]},{"Token":81},{"And":[[622],null]},{"Or":[623]},{"Token":37},{"Token":38},{"And":[[625,626],null]},{"Or":[627]},{"Opt":57},{"And":[[49,629],null]},{"Or":[630]},{"Call":[152,[[4,631]]]},{"And":[[632],null]},{"Or":[633]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[635,636],null]},{"Or":[637]},{"Token":82},{"And":[[639],null]},{"Or":[640]},{"Token":58},{"And":[[642,75],null]},{"Or":[643]},{"Opt":644},{"And":[[49,645],null]},{"Or":[646]},{"Call":[154,[[6,647]]]},{"And":[[648],null]},{"Or":[649]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,653]]]},{"Opt":9},{"And":[[651,652,654,655],2]},{"Or":[656]},{"Token":59},{"And":[[63,658],null]},{"Or":[659]},{"Opt":660},{"And":[[661,49],null]},{"Or":[662]},{"Token":23},{"And":[[664,31,49],1]},{"Or":[665]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[674],null]},{"Or":[675]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[677,678]},{"Opt":679},{"And":[[40,680],null]},{"Or":[681]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":685},{"And":[[684,686],null]},{"Or":[687]},{"Opt":688},{"And":[[683,689],null]},{"Or":[690]},{"Call":[152,[[4,691]]]},{"And":[[692],null]},{"Or":[693]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":697},{"And":[[696,698],null]},{"Or":[699]},{"Opt":700},{"And":[[695,701],null]},{"Or":[702]},{"Call":[151,[[3,703]]]},{"And":[[704],null]},{"Or":[705]},{"Token":59},{"Not":707},{"And":[[69,708],null]},{"Token":92},{"Token":59},{"And":[[710,711,63],2]},{"Or":[709,712]},{"Token":28},{"Opt":714},{"Token":27},{"Opt":716},{"Token":92},{"And":[[715,717,718],null]},{"Or":[719]},{"And":[[79],null]},{"Or":[721]},{"Token":37},{"Token":38},{"And":[[723,724],null]},{"Or":[725]},{"Opt":73},{"And":[[63,727],null]},{"Or":[728]},{"Call":[152,[[4,729]]]},{"And":[[730],null]},{"Or":[731]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[733,734],null]},{"Or":[735]},{"Token":77},{"Token":27},{"Opt":738},{"And":[[737,739,63],null]},{"Or":[740]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":744},{"And":[[742,743,745,113],null]},{"Or":[746]},{"IsIn":2},{"Not":77},{"And":[[748,749],null]},{"IsIn":2},{"Not":751},{"And":[[752],null]},{"Or":[750,753]},{"And":[[754,113],null]},{"Or":[755]},{"Token":62},{"Token":92},{"And":[[758],null]},{"Token":89},{"And":[[760],null]},{"Or":[759,761]},{"And":[[757,762],null]},{"Or":[763]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[767,49],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Call":[127,[[1,779]]]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"Call":[127,[[1,785]]]},{"ContextualToken":[45,"<<"]},{"And":[[787],null]},{"ContextualToken":[47,">>"]},{"And":[[789],null]},{"Or":[788,790]},{"Call":[127,[[1,791]]]},{"Token":77},{"Token":77},{"Not":794},{"And":[[793,795],null]},{"Or":[796]},{"Call":[127,[[1,797]]]},{"Token":84},{"Call":[127,[[1,799]]]},{"Token":79},{"Token":79},{"Not":802},{"And":[[801,803],null]},{"Or":[804]},{"Call":[127,[[1,805]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,808]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,810]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[813],null]},{"Token":74},{"And":[[815],null]},{"Token":76},{"And":[[817],null]},{"Token":68},{"And":[[819],null]},{"Token":70},{"And":[[821],null]},{"Token":72},{"And":[[823],null]},{"Token":78},{"And":[[825],null]},{"Token":80},{"And":[[827],null]},{"Token":85},{"And":[[829],null]},{"ContextualToken":[48,">>="]},{"And":[[831],null]},{"ContextualToken":[46,"<<="]},{"And":[[833],null]},{"Or":[814,816,818,820,822,824,826,828,830,832,834]},{"Call":[127,[[1,835]]]},{"And":[[79],null]},{"Token":92},{"And":[[838],null]},{"Token":87},{"And":[[840],null]},{"Token":18},{"And":[[842],null]},{"Token":19},{"And":[[844],null]},{"Token":41},{"And":[[846],null]},{"Token":60},{"And":[[848],null]},{"Token":37},{"And":[[850],null]},{"Token":43},{"And":[[852],null]},{"Token":79},{"And":[[854],null]},{"Token":31},{"And":[[856],null]},{"Token":39},{"And":[[858],null]},{"Token":14},{"And":[[860],null]},{"Token":25},{"And":[[862],null]},{"Token":24},{"And":[[864],null]},{"Token":23},{"And":[[866],null]},{"Token":30},{"And":[[868],null]},{"Token":26},{"And":[[870],null]},{"Token":32},{"And":[[872],null]},{"Token":33},{"And":[[874],null]},{"Token":77},{"And":[[876],null]},{"Token":67},{"And":[[878],null]},{"Token":75},{"And":[[880],null]},{"Token":82},{"And":[[882],null]},{"Token":63},{"And":[[884],null]},{"Token":64},{"And":[[886],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[888],null]},{"Var":0},{"Exit":[2,890]},{"Exit":[0,891]},{"And":[[892],null]},{"Token":89},{"And":[[894],null]},{"Token":90},{"And":[[896],null]},{"Token":91},{"And":[[898],null]},{"Token":86},{"And":[[900],null]},{"Token":88},{"And":[[902],null]},{"Or":[895,897,899,901,903]},{"Token":92},{"Token":82},{"And":[[905,906],null]},{"Or":[907]},{"Not":908},{"Opt":81},{"And":[[909,40,910],null]},{"Or":[911]},{"IsIn":0},{"Not":913},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[916,917],null]},{"Or":[918]},{"Opt":919},{"And":[[915,920],null]},{"Or":[921]},{"Call":[151,[[3,922]]]},{"And":[[914,923],null]},{"Or":[924]},{"Token":92},{"Token":59},{"And":[[927,75],null]},{"Or":[928]},{"Opt":929},{"And":[[926,930],1]},{"Or":[931]},{"Token":37},{"Token":38},{"And":[[933,934],null]},{"Or":[935]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[937,938],null]},{"Or":[939]},{"Call":[152,[[4,940]]]},{"And":[[941],null]},{"Or":[942]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,945]]]},{"And":[[944,946],null]},{"Or":[947]},{"Token":58},{"And":[[949,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[951,952],null]},{"Or":[950,953]},{"Opt":954},{"And":[[75,955],null]},{"Or":[956]},{"Call":[78,[[0,957]]]},{"Call":[154,[[6,958]]]},{"And":[[959],null]},{"Or":[960]},{"Token":26},{"Opt":962},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[967,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[969],null]},{"Or":[968,970]},{"And":[[963,964,965,966,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":75},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[93,92]},{"Rep":997},{"Call":[151,[[3,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[78,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1017,75],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,63,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[77],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1030,1032,1034]},{"And":[[75,1035],1]},{"Or":[1036]},{"Enter":[2,1037]},{"And":[[1038],null]},{"Or":[1039]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1043,1044]},{"And":[[1042,1045],null]},{"Or":[1046]},{"Opt":1047},{"And":[[1041,100,91,1048],1]},{"Or":[1049]},{"Opt":104},{"Token":25},{"And":[[1051,1052,100,91],2]},{"Or":[1053]},{"Token":9},{"Token":53},{"And":[[1055,63,1056],1]},{"Or":[1057]},{"Opt":1058},{"And":[[1059,101],1]},{"Enter":[0,75]},{"And":[[1061],null]},{"Opt":104},{"Token":24},{"And":[[1063,1064,91],2]},{"Or":[1065]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1067,1068,63,1069,101,91],2]},{"Or":[1070]},{"Token":87},{"Token":59},{"And":[[1072,1073],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1076]]]},{"And":[[1075,101,1077],1]},{"Or":[1078]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"And":[[77],null]},{"Or":[1083,1085,1086]},{"And":[[107,1080,1081,1087],1]},{"Or":[1088]},{"Token":79},{"And":[[1090,63],null]},{"Or":[1091]},{"Rep":1092},{"Opt":108},{"And":[[63,1093,1094],null]},{"Token":14},{"And":[[1096,75],null]},{"Or":[1097]},{"And":[[147],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1105},{"And":[[1103,1104,1106,113],null]},{"Or":[1107]},{"And":[[75,1108],null]},{"Or":[1109]},{"IsIn":2},{"Not":77},{"And":[[1111,1112],null]},{"IsIn":2},{"Not":1114},{"And":[[1115],null]},{"Or":[1113,1116]},{"And":[[1117,113],null]},{"Or":[1118]},{"And":[[75,1119],null]},{"Or":[1120]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1122]]]},{"Call":[78,[[0,1123]]]},{"And":[[1124],null]},{"And":[[75],null]},{"Or":[1126]},{"Token":62},{"Token":92},{"And":[[1129],null]},{"Token":89},{"And":[[1131],null]},{"Or":[1130,1132]},{"And":[[1128,1133],null]},{"Or":[1134]},{"And":[[75,1135],null]},{"Or":[1136]},{"Call":[154,[[6,75]]]},{"And":[[75,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[75,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,49],null]},{"Or":[1145]},{"And":[[75,1146],null]},{"Or":[1147]},{"And":[[120,75],null]},{"Or":[1149]},{"Token":77},{"Token":87},{"Opt":1152},{"Token":27},{"Opt":1154},{"And":[[1151,1153,1155],null]},{"Token":67},{"And":[[1157,75],null]},{"Or":[1158]},{"Token":75},{"And":[[1160,75],null]},{"Or":[1161]},{"Token":82},{"And":[[1163,75],null]},{"Or":[1164]},{"Token":67},{"And":[[1166],null]},{"Token":69},{"And":[[1168],null]},{"Token":71},{"And":[[1170],null]},{"Or":[1167,1169,1171]},{"Call":[127,[[1,1172]]]},{"And":[[75,1173,75],null]},{"Or":[1174]},{"Token":73},{"And":[[1176],null]},{"Token":75},{"And":[[1178],null]},{"Or":[1177,1179]},{"Call":[127,[[1,1180]]]},{"And":[[75,1181,75],null]},{"Or":[1182]},{"ContextualToken":[45,"<<"]},{"And":[[1184],null]},{"ContextualToken":[47,">>"]},{"And":[[1186],null]},{"Or":[1185,1187]},{"Call":[127,[[1,1188]]]},{"And":[[75,1189,75],null]},{"Or":[1190]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1192,1193,1194],null]},{"IsIn":2},{"Not":1196},{"Var":1},{"And":[[1197,1198],null]},{"Token":77},{"Token":77},{"Not":1201},{"And":[[1200,1202],null]},{"Or":[1203]},{"Call":[127,[[1,1204]]]},{"And":[[75,1205,75],null]},{"Or":[1206]},{"Token":84},{"Call":[127,[[1,1208]]]},{"And":[[75,1209,75],null]},{"Or":[1210]},{"Token":79},{"Token":79},{"Not":1213},{"And":[[1212,1214],null]},{"Or":[1215]},{"Call":[127,[[1,1216]]]},{"And":[[75,1217,75],null]},{"Or":[1218]},{"Call":[127,[[1,132]]]},{"And":[[75,1220,75],null]},{"Or":[1221]},{"Token":54},{"And":[[1223],null]},{"Token":55},{"And":[[1225],null]},{"Token":41},{"Token":57},{"Not":1228},{"And":[[1227,1229],null]},{"Token":42},{"Token":56},{"Not":1232},{"And":[[1231,1233],null]},{"Token":57},{"And":[[1235],null]},{"Token":56},{"And":[[1237],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1239]]]},{"And":[[75,1240,75],null]},{"Or":[1241]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1243]]]},{"And":[[75,1244,75],null]},{"Or":[1245]},{"Call":[127,[[1,140]]]},{"And":[[75,1247,75],null]},{"Or":[1248]},{"And":[[140,75],null]},{"Or":[1250]},{"And":[[75,139],null]},{"Or":[1252]},{"Token":63},{"Not":76},{"And":[[1254,1255],null]},{"Or":[1256]},{"Token":63},{"And":[[1258],null]},{"Token":64},{"And":[[1260],null]},{"Not":76},{"Not":1262},{"Token":39},{"IsIn":0},{"And":[[1264,1265],null]},{"Or":[1266]},{"Not":1267},{"And":[[139,1263,1268],null]},{"Token":53},{"And":[[1270],null]},{"Token":74},{"And":[[1272],null]},{"Token":76},{"And":[[1274],null]},{"Token":68},{"And":[[1276],null]},{"Token":70},{"And":[[1278],null]},{"Token":72},{"And":[[1280],null]},{"Token":78},{"And":[[1282],null]},{"Token":80},{"And":[[1284],null]},{"Token":85},{"And":[[1286],null]},{"ContextualToken":[48,">>="]},{"And":[[1288],null]},{"ContextualToken":[46,"<<="]},{"And":[[1290],null]},{"Or":[1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291]},{"Call":[127,[[1,1292]]]},{"And":[[75,1293,75],null]},{"Or":[1294]},{"Token":65},{"And":[[1296,144],null]},{"Or":[1297]},{"Token":65},{"Token":82},{"And":[[1299,1300,144],null]},{"Or":[1301]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1303]]]},{"And":[[1304],null]},{"Rep":142},{"And":[[1306],null]},{"Token":92},{"Token":53},{"And":[[1309,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1311]]]},{"And":[[1312],null]},{"Or":[1310,1313]},{"Opt":1314},{"And":[[1308,1315],1]},{"Or":[1316]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1320},{"Rep":149},{"Call":[151,[[3,1322]]]},{"And":[[1318,1319,1321,1323],null]},{"Or":[1324]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1328},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1330,1331,1332],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1334,1335,1336],null]},{"Or":[1333,1337]},{"And":[[1326,1327,1329,1338],null]},{"Or":[1339]},{"Token":37},{"And":[[1341],null]},{"Token":38},{"And":[[1343],null]},{"Token":39},{"And":[[1345],null]},{"Token":40},{"And":[[1347],null]},{"Token":43},{"And":[[1349],null]},{"Token":44},{"And":[[1351],null]},{"Or":[1342,1344,1346,1348,1350,1352]},{"Not":1353},"Any",{"And":[[1354,1355],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1357,1358,1359],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1361,1362,1363],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1365,1366,1367],null]},{"Or":[1356,1360,1364,1368]},{"Var":2},"Eof",{"And":[[1371],null]},{"Token":61},{"And":[[1373],null]},{"Or":[1372,1374]},{"And":[[1370,1375],1]},{"Or":[1376]},{"Rep":1377},{"And":[[1378],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1380],[8,1381],[9,1382]]]},{"And":[[1383],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1401],[11,1402]]]},{"Var":9},{"Layer":[1403,1404]},{"Var":8},{"And":[[1400,1405,1406],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1409],[11,1410]]]},{"Var":11},{"And":[[1408,1411,1412],1]},{"Var":11},{"Not":1414},"Any",{"And":[[1415,1416],null]},{"Or":[1417]},{"And":[[1418],null]},{"Or":[1413,1419]},{"Rep":1420},{"And":[[1421],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Or":[600,601,602,603,604,605,606,607,608,609]},{"Pub":{"ty":129,"body":611,"replaceable":false}},{"Pub":{"ty":130,"body":613,"replaceable":false}},{"Pub":{"ty":131,"body":621,"replaceable":false}},{"Pub":{"ty":132,"body":624,"replaceable":false}},{"Pub":{"ty":133,"body":628,"replaceable":false}},{"Pub":{"ty":134,"body":634,"replaceable":true}},{"PubReplace":{"ty":135,"body":638}},{"Pub":{"ty":136,"body":641,"replaceable":false}},{"Pub":{"ty":137,"body":650,"replaceable":false}},{"Pub":{"ty":138,"body":657,"replaceable":false}},{"Pub":{"ty":100,"body":663,"replaceable":false}},{"Pub":{"ty":139,"body":666,"replaceable":false}},{"Or":[667,668,669,670,671,672,673]},{"Pub":{"ty":140,"body":676,"replaceable":false}},{"Pub":{"ty":141,"body":682,"replaceable":true}},{"PubReplace":{"ty":142,"body":694}},{"PubReplace":{"ty":143,"body":706}},{"Pub":{"ty":144,"body":713,"replaceable":false}},{"Pub":{"ty":145,"body":720,"replaceable":false}},{"Pub":{"ty":146,"body":722,"replaceable":false}},{"Pub":{"ty":147,"body":726,"replaceable":false}},{"Pub":{"ty":148,"body":732,"replaceable":true}},{"PubReplace":{"ty":149,"body":736}},{"Pub":{"ty":150,"body":741,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":747,"priority":999,"has_rhs":false},{"ty":178,"op":756,"priority":999,"has_rhs":false},{"ty":180,"op":764,"priority":999,"has_rhs":false},{"ty":181,"op":765,"priority":999,"has_rhs":false},{"ty":182,"op":766,"priority":999,"has_rhs":false},{"ty":183,"op":769,"priority":12,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":786,"priority":10,"has_rhs":true},{"ty":190,"op":792,"priority":9,"has_rhs":true},{"ty":191,"op":798,"priority":8,"has_rhs":true},{"ty":192,"op":800,"priority":7,"has_rhs":true},{"ty":193,"op":806,"priority":6,"has_rhs":true},{"ty":194,"op":807,"priority":5,"has_rhs":true},{"ty":195,"op":809,"priority":4,"has_rhs":true},{"ty":196,"op":811,"priority":3,"has_rhs":true},{"ty":197,"op":812,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":836,"priority":1,"has_rhs":true}]}},{"Or":[837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887]},{"Or":[889]},{"Or":[893]},{"Pub":{"ty":152,"body":904,"replaceable":false}},{"Pub":{"ty":153,"body":912,"replaceable":true}},{"PubReplace":{"ty":154,"body":925}},{"Pub":{"ty":155,"body":932,"replaceable":false}},{"Pub":{"ty":156,"body":936,"replaceable":false}},{"Pub":{"ty":157,"body":943,"replaceable":true}},{"PubReplace":{"ty":158,"body":948}},{"Pub":{"ty":159,"body":961,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1040,"replaceable":false}},{"Pub":{"ty":168,"body":1050,"replaceable":false}},{"Pub":{"ty":169,"body":1054,"replaceable":false}},{"Or":[1060]},{"Or":[1062]},{"Pub":{"ty":170,"body":1066,"replaceable":false}},{"Pub":{"ty":171,"body":1071,"replaceable":false}},{"Or":[1074]},{"Pub":{"ty":172,"body":1079,"replaceable":false}},{"Pub":{"ty":173,"body":1089,"replaceable":false}},{"Or":[1095]},{"Pub":{"ty":174,"body":1098,"replaceable":false}},{"Pub":{"ty":175,"body":1100,"replaceable":false}},{"Pub":{"ty":176,"body":1102,"replaceable":false}},{"Pub":{"ty":177,"body":1110,"replaceable":false}},{"Pub":{"ty":178,"body":1121,"replaceable":false}},{"Or":[1125]},{"Pub":{"ty":179,"body":1127,"replaceable":false}},{"Pub":{"ty":180,"body":1137,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1150,"replaceable":false}},{"Or":[1156]},{"Pub":{"ty":185,"body":1159,"replaceable":false}},{"Pub":{"ty":186,"body":1162,"replaceable":false}},{"Pub":{"ty":187,"body":1165,"replaceable":false}},{"Pub":{"ty":188,"body":1175,"replaceable":false}},{"Pub":{"ty":189,"body":1183,"replaceable":false}},{"Pub":{"ty":190,"body":1191,"replaceable":false}},{"Or":[1195,1199]},{"Pub":{"ty":191,"body":1207,"replaceable":false}},{"Pub":{"ty":192,"body":1211,"replaceable":false}},{"Pub":{"ty":193,"body":1219,"replaceable":false}},{"Pub":{"ty":194,"body":1222,"replaceable":false}},{"Or":[1224,1226,1230,1234,1236,1238]},{"Pub":{"ty":195,"body":1242,"replaceable":false}},{"Pub":{"ty":196,"body":1246,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Or":[1259,1261]},{"Or":[1269]},{"Pub":{"ty":198,"body":1295,"replaceable":false}},{"Pub":{"ty":199,"body":1298,"replaceable":false}},{"Pub":{"ty":200,"body":1302,"replaceable":false}},{"Or":[1305]},{"Or":[1307]},{"Pub":{"ty":201,"body":1317,"replaceable":false}},{"Pub":{"ty":202,"body":1325,"replaceable":false}},{"Pub":{"ty":203,"body":1340,"replaceable":false}},{"Pub":{"ty":204,"body":1369,"replaceable":false}},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1407]},{"Or":[1422]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":60},{"Not":273},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[271,272,274,278,283],3]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,323]]]},{"And":[[324],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,75],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[50,597],null]},{"Or":[598]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[610]},{"And":[[120,49],null]},{"Or":[612]},{"Token":67},{"Token":21},{"And":[[615],null]},{"Token":27},{"And":[[617],null]},{"Or":[616,618]},{"And":[[614,619,49],null]},{"Or":[620]},{"Token":81},{"And":[[622],null]},{"Or":[623]},{"Token":37},{"Token":38},{"And":[[625,626],null]},{"Or":[627]},{"Opt":57},{"And":[[49,629],null]},{"Or":[630]},{"Call":[152,[[4,631]]]},{"And":[[632],null]},{"Or":[633]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[635,636],null]},{"Or":[637]},{"Token":82},{"And":[[639],null]},{"Or":[640]},{"Token":58},{"And":[[642,75],null]},{"Or":[643]},{"Opt":644},{"And":[[49,645],null]},{"Or":[646]},{"Call":[154,[[6,647]]]},{"And":[[648],null]},{"Or":[649]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,653]]]},{"Opt":9},{"And":[[651,652,654,655],2]},{"Or":[656]},{"Token":59},{"And":[[63,658],null]},{"Or":[659]},{"Opt":660},{"And":[[661,49],null]},{"Or":[662]},{"Token":23},{"And":[[664,31,49],1]},{"Or":[665]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[674],null]},{"Or":[675]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[677,678]},{"Opt":679},{"And":[[40,680],null]},{"Or":[681]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":685},{"And":[[684,686],null]},{"Or":[687]},{"Opt":688},{"And":[[683,689],null]},{"Or":[690]},{"Call":[152,[[4,691]]]},{"And":[[692],null]},{"Or":[693]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":697},{"And":[[696,698],null]},{"Or":[699]},{"Opt":700},{"And":[[695,701],null]},{"Or":[702]},{"Call":[151,[[3,703]]]},{"And":[[704],null]},{"Or":[705]},{"Token":59},{"Not":707},{"And":[[69,708],null]},{"Token":92},{"Token":59},{"And":[[710,711,63],2]},{"Or":[709,712]},{"Token":28},{"Opt":714},{"Token":27},{"Opt":716},{"Token":92},{"And":[[715,717,718],null]},{"Or":[719]},{"And":[[79],null]},{"Or":[721]},{"Token":37},{"Token":38},{"And":[[723,724],null]},{"Or":[725]},{"Opt":73},{"And":[[63,727],null]},{"Or":[728]},{"Call":[152,[[4,729]]]},{"And":[[730],null]},{"Or":[731]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[733,734],null]},{"Or":[735]},{"Token":77},{"Token":27},{"Opt":738},{"And":[[737,739,63],null]},{"Or":[740]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":744},{"And":[[742,743,745,113],null]},{"Or":[746]},{"IsIn":2},{"Not":77},{"And":[[748,749],null]},{"IsIn":2},{"Not":751},{"And":[[752],null]},{"Or":[750,753]},{"And":[[754,113],null]},{"Or":[755]},{"Token":62},{"Token":92},{"And":[[758],null]},{"Token":89},{"And":[[760],null]},{"Or":[759,761]},{"And":[[757,762],null]},{"Or":[763]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[767,49],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Call":[127,[[1,779]]]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"Call":[127,[[1,785]]]},{"ContextualToken":[45,"<<"]},{"And":[[787],null]},{"ContextualToken":[47,">>"]},{"And":[[789],null]},{"Or":[788,790]},{"Call":[127,[[1,791]]]},{"Token":77},{"Token":77},{"Not":794},{"And":[[793,795],null]},{"Or":[796]},{"Call":[127,[[1,797]]]},{"Token":84},{"Call":[127,[[1,799]]]},{"Token":79},{"Token":79},{"Not":802},{"And":[[801,803],null]},{"Or":[804]},{"Call":[127,[[1,805]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,808]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,810]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[813],null]},{"Token":74},{"And":[[815],null]},{"Token":76},{"And":[[817],null]},{"Token":68},{"And":[[819],null]},{"Token":70},{"And":[[821],null]},{"Token":72},{"And":[[823],null]},{"Token":78},{"And":[[825],null]},{"Token":80},{"And":[[827],null]},{"Token":85},{"And":[[829],null]},{"ContextualToken":[48,">>="]},{"And":[[831],null]},{"ContextualToken":[46,"<<="]},{"And":[[833],null]},{"Or":[814,816,818,820,822,824,826,828,830,832,834]},{"Call":[127,[[1,835]]]},{"And":[[79],null]},{"Token":92},{"And":[[838],null]},{"Token":87},{"And":[[840],null]},{"Token":18},{"And":[[842],null]},{"Token":19},{"And":[[844],null]},{"Token":41},{"And":[[846],null]},{"Token":60},{"And":[[848],null]},{"Token":37},{"And":[[850],null]},{"Token":43},{"And":[[852],null]},{"Token":79},{"And":[[854],null]},{"Token":31},{"And":[[856],null]},{"Token":39},{"And":[[858],null]},{"Token":14},{"And":[[860],null]},{"Token":25},{"And":[[862],null]},{"Token":24},{"And":[[864],null]},{"Token":23},{"And":[[866],null]},{"Token":30},{"And":[[868],null]},{"Token":26},{"And":[[870],null]},{"Token":32},{"And":[[872],null]},{"Token":33},{"And":[[874],null]},{"Token":77},{"And":[[876],null]},{"Token":67},{"And":[[878],null]},{"Token":75},{"And":[[880],null]},{"Token":82},{"And":[[882],null]},{"Token":63},{"And":[[884],null]},{"Token":64},{"And":[[886],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[888],null]},{"Var":0},{"Exit":[2,890]},{"Exit":[0,891]},{"And":[[892],null]},{"Token":89},{"And":[[894],null]},{"Token":90},{"And":[[896],null]},{"Token":91},{"And":[[898],null]},{"Token":86},{"And":[[900],null]},{"Token":88},{"And":[[902],null]},{"Or":[895,897,899,901,903]},{"Token":92},{"Token":82},{"And":[[905,906],null]},{"Or":[907]},{"Not":908},{"Opt":81},{"And":[[909,40,910],null]},{"Or":[911]},{"IsIn":0},{"Not":913},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[916,917],null]},{"Or":[918]},{"Opt":919},{"And":[[915,920],null]},{"Or":[921]},{"Call":[151,[[3,922]]]},{"And":[[914,923],null]},{"Or":[924]},{"Token":92},{"Token":59},{"And":[[927,75],null]},{"Or":[928]},{"Opt":929},{"And":[[926,930],1]},{"Or":[931]},{"Token":37},{"Token":38},{"And":[[933,934],null]},{"Or":[935]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[937,938],null]},{"Or":[939]},{"Call":[152,[[4,940]]]},{"And":[[941],null]},{"Or":[942]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,945]]]},{"And":[[944,946],null]},{"Or":[947]},{"Token":58},{"And":[[949,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[951,952],null]},{"Or":[950,953]},{"Opt":954},{"And":[[75,955],null]},{"Or":[956]},{"Call":[78,[[0,957]]]},{"Call":[154,[[6,958]]]},{"And":[[959],null]},{"Or":[960]},{"Token":26},{"Opt":962},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[967,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[969],null]},{"Or":[968,970]},{"And":[[963,964,965,966,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":75},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[93,92]},{"Rep":997},{"Call":[151,[[3,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[78,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1017,75],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,63,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[77],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1030,1032,1034]},{"And":[[75,1035],1]},{"Or":[1036]},{"Enter":[2,1037]},{"And":[[1038],null]},{"Or":[1039]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1043,1044]},{"And":[[1042,1045],null]},{"Or":[1046]},{"Opt":1047},{"And":[[1041,100,91,1048],1]},{"Or":[1049]},{"Opt":104},{"Token":25},{"And":[[1051,1052,100,91],2]},{"Or":[1053]},{"Token":9},{"Token":53},{"And":[[1055,63,1056],1]},{"Or":[1057]},{"Opt":1058},{"And":[[1059,101],1]},{"Enter":[0,75]},{"And":[[1061],null]},{"Opt":104},{"Token":24},{"And":[[1063,1064,91],2]},{"Or":[1065]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1067,1068,63,1069,101,91],2]},{"Or":[1070]},{"Token":87},{"Token":59},{"And":[[1072,1073],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1076]]]},{"And":[[1075,101,1077],1]},{"Or":[1078]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"And":[[77],null]},{"Or":[1083,1085,1086]},{"And":[[107,1080,1081,1087],1]},{"Or":[1088]},{"Token":79},{"And":[[1090,63],null]},{"Or":[1091]},{"Rep":1092},{"Opt":108},{"And":[[63,1093,1094],null]},{"Token":14},{"And":[[1096,75],null]},{"Or":[1097]},{"And":[[147],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1105},{"And":[[1103,1104,1106,113],null]},{"Or":[1107]},{"And":[[75,1108],null]},{"Or":[1109]},{"IsIn":2},{"Not":77},{"And":[[1111,1112],null]},{"IsIn":2},{"Not":1114},{"And":[[1115],null]},{"Or":[1113,1116]},{"And":[[1117,113],null]},{"Or":[1118]},{"And":[[75,1119],null]},{"Or":[1120]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1122]]]},{"Call":[78,[[0,1123]]]},{"And":[[1124],null]},{"And":[[75],null]},{"Or":[1126]},{"Token":62},{"Token":92},{"And":[[1129],null]},{"Token":89},{"And":[[1131],null]},{"Or":[1130,1132]},{"And":[[1128,1133],null]},{"Or":[1134]},{"And":[[75,1135],null]},{"Or":[1136]},{"Call":[154,[[6,75]]]},{"And":[[75,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[75,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,49],null]},{"Or":[1145]},{"And":[[75,1146],null]},{"Or":[1147]},{"And":[[120,75],null]},{"Or":[1149]},{"Token":77},{"Token":87},{"Opt":1152},{"Token":27},{"Opt":1154},{"And":[[1151,1153,1155],null]},{"Token":67},{"And":[[1157,75],null]},{"Or":[1158]},{"Token":75},{"And":[[1160,75],null]},{"Or":[1161]},{"Token":82},{"And":[[1163,75],null]},{"Or":[1164]},{"Token":67},{"And":[[1166],null]},{"Token":69},{"And":[[1168],null]},{"Token":71},{"And":[[1170],null]},{"Or":[1167,1169,1171]},{"Call":[127,[[1,1172]]]},{"And":[[75,1173,75],null]},{"Or":[1174]},{"Token":73},{"And":[[1176],null]},{"Token":75},{"And":[[1178],null]},{"Or":[1177,1179]},{"Call":[127,[[1,1180]]]},{"And":[[75,1181,75],null]},{"Or":[1182]},{"ContextualToken":[45,"<<"]},{"And":[[1184],null]},{"ContextualToken":[47,">>"]},{"And":[[1186],null]},{"Or":[1185,1187]},{"Call":[127,[[1,1188]]]},{"And":[[75,1189,75],null]},{"Or":[1190]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1192,1193,1194],null]},{"IsIn":2},{"Not":1196},{"Var":1},{"And":[[1197,1198],null]},{"Token":77},{"Token":77},{"Not":1201},{"And":[[1200,1202],null]},{"Or":[1203]},{"Call":[127,[[1,1204]]]},{"And":[[75,1205,75],null]},{"Or":[1206]},{"Token":84},{"Call":[127,[[1,1208]]]},{"And":[[75,1209,75],null]},{"Or":[1210]},{"Token":79},{"Token":79},{"Not":1213},{"And":[[1212,1214],null]},{"Or":[1215]},{"Call":[127,[[1,1216]]]},{"And":[[75,1217,75],null]},{"Or":[1218]},{"Call":[127,[[1,132]]]},{"And":[[75,1220,75],null]},{"Or":[1221]},{"Token":54},{"And":[[1223],null]},{"Token":55},{"And":[[1225],null]},{"Token":41},{"Token":57},{"Not":1228},{"And":[[1227,1229],null]},{"Token":42},{"Token":56},{"Not":1232},{"And":[[1231,1233],null]},{"Token":57},{"And":[[1235],null]},{"Token":56},{"And":[[1237],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1239]]]},{"And":[[75,1240,75],null]},{"Or":[1241]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1243]]]},{"And":[[75,1244,75],null]},{"Or":[1245]},{"Call":[127,[[1,140]]]},{"And":[[75,1247,75],null]},{"Or":[1248]},{"And":[[140,75],null]},{"Or":[1250]},{"And":[[75,139],null]},{"Or":[1252]},{"Token":63},{"Not":76},{"And":[[1254,1255],null]},{"Or":[1256]},{"Token":63},{"And":[[1258],null]},{"Token":64},{"And":[[1260],null]},{"Not":76},{"Not":1262},{"Token":39},{"IsIn":0},{"And":[[1264,1265],null]},{"Or":[1266]},{"Not":1267},{"And":[[139,1263,1268],null]},{"Token":53},{"And":[[1270],null]},{"Token":74},{"And":[[1272],null]},{"Token":76},{"And":[[1274],null]},{"Token":68},{"And":[[1276],null]},{"Token":70},{"And":[[1278],null]},{"Token":72},{"And":[[1280],null]},{"Token":78},{"And":[[1282],null]},{"Token":80},{"And":[[1284],null]},{"Token":85},{"And":[[1286],null]},{"ContextualToken":[48,">>="]},{"And":[[1288],null]},{"ContextualToken":[46,"<<="]},{"And":[[1290],null]},{"Or":[1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291]},{"Call":[127,[[1,1292]]]},{"And":[[75,1293,75],null]},{"Or":[1294]},{"Token":65},{"And":[[1296,144],null]},{"Or":[1297]},{"Token":65},{"Token":82},{"And":[[1299,1300,144],null]},{"Or":[1301]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1303]]]},{"And":[[1304],null]},{"Rep":142},{"And":[[1306],null]},{"Token":92},{"Token":53},{"And":[[1309,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1311]]]},{"And":[[1312],null]},{"Or":[1310,1313]},{"Opt":1314},{"And":[[1308,1315],1]},{"Or":[1316]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1320},{"Rep":149},{"Call":[151,[[3,1322]]]},{"And":[[1318,1319,1321,1323],null]},{"Or":[1324]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1328},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1330,1331,1332],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1334,1335,1336],null]},{"Or":[1333,1337]},{"And":[[1326,1327,1329,1338],null]},{"Or":[1339]},{"Token":37},{"And":[[1341],null]},{"Token":38},{"And":[[1343],null]},{"Token":39},{"And":[[1345],null]},{"Token":40},{"And":[[1347],null]},{"Token":43},{"And":[[1349],null]},{"Token":44},{"And":[[1351],null]},{"Or":[1342,1344,1346,1348,1350,1352]},{"Not":1353},"Any",{"And":[[1354,1355],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1357,1358,1359],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1361,1362,1363],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1365,1366,1367],null]},{"Or":[1356,1360,1364,1368]},{"Var":2},"Eof",{"And":[[1371],null]},{"Token":61},{"And":[[1373],null]},{"Or":[1372,1374]},{"And":[[1370,1375],1]},{"Or":[1376]},{"Rep":1377},{"And":[[1378],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1380],[8,1381],[9,1382]]]},{"And":[[1383],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1401],[11,1402]]]},{"Var":9},{"Layer":[1403,1404]},{"Var":8},{"And":[[1400,1405,1406],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1409],[11,1410]]]},{"Var":11},{"And":[[1408,1411,1412],1]},{"Var":11},{"Not":1414},"Any",{"And":[[1415,1416],null]},{"Or":[1417]},{"And":[[1418],null]},{"Or":[1413,1419]},{"Rep":1420},{"And":[[1421],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 86a67d30a9237edf90414c3779294159d2b299b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 15/46] fix: Rust typing assists and breadcrumbs answer at the
 start of a file

---
 lang/rust/src/editor/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..ed78544 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -29,6 +29,9 @@ impl RustEditorFile {
     }
 
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
+        if offset < tu(1) {
+            return None;
+        }
         let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
         if let_kw.ty() != LET {
             return None;
@@ -44,16 +47,15 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
+        if offset < tu(2) {
+            return None;
+        }
         let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
             .left_biased()?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
         let mut edit = FileEdit::new(&self.file);
-        let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
-        );
+        let text = expr.node().text().to_string();
+        let text = text.get(..text.len().checked_sub(3)?)?;
         edit.replace_substring(
             TextRange::from_to(expr.node().range().start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
@@ -63,6 +65,9 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
+        if offset < tu(1) {
+            return Vec::new();
+        }
         let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
             Some(leaf) => leaf,
             None => return Vec::new(),
-- 
2.43.0


From 6cc33b22d376b5d824b37bfd8fe1d1965218973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 16/46] fix: highlights of empty errors stay inside the file

---
 fall/editor/src/hl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/editor/src/hl.rs b/fall/editor/src/hl.rs
index 292d02a..f286a5d 100644
--- a/fall/editor/src/hl.rs
+++ b/fall/editor/src/hl.rs
@@ -1,4 +1,4 @@
-use fall_tree::{TextRange, NodeType, Node, tu, ERROR as ERROR_TY};
+use fall_tree::{TextRange, TextSuffix, NodeType, Node, tu, ERROR as ERROR_TY};
 
 use fall_tree::visitor::{Visit, VisitorBuilder};
 
@@ -31,7 +31,10 @@ impl<'f> Visit<'f> for HlVisitor {
     fn visit(&mut self, node: Node<'f>, ctx: &mut Highlights) {
         if node.ty() == ERROR_TY {
             let range = if node.range().is_empty() {
-                TextRange::from_len(node.range().start(), tu(1))
+                // An empty error shows at the next character, if there is one.
+                let start = node.range().start();
+                let next = node.file().text().slice(TextSuffix::from(start)).chars().next();
+                TextRange::from_len(start, tu(next.map_or(0, char::len_utf8) as u32))
             } else {
                 node.range()
             };
-- 
2.43.0


From dd83442f0fa9b04646e7217133e15df22db2ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 17/46] fix: do not print while looking for alternatives to
 swap

---
 lang/fall/src/editor/actions/swap_alternatives.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lang/fall/src/editor/actions/swap_alternatives.rs b/lang/fall/src/editor/actions/swap_alternatives.rs
index 980345e..30b623b 100644
--- a/lang/fall/src/editor/actions/swap_alternatives.rs
+++ b/lang/fall/src/editor/actions/swap_alternatives.rs
@@ -27,7 +27,6 @@ fn find_swappable_nodes<'f>(file: &'f File, offset: TextUnit) -> Option<(Node<'f
             return None;
         },
     };
-    println!("B");
 
     let parent = pipe.parent().and_then(BlockExpr::wrap)?;
     for (alt1, alt2) in parent.alts().zip(parent.alts().skip(1)) {
-- 
2.43.0


From 29da7201a33706f3d25f12b6fed803fc02852f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 18/46] fix: analyse grammars with unfinished rules, nodes,
 classes and traits

---
 fall/gen/src/generate/codegen.rs              | 45 +++++++++++--------
 .../src/analysis/query/ast_node_traits.rs     |  2 +-
 .../fall/src/analysis/query/resolve_method.rs |  4 +-
 .../analysis/query/resolve_pratt_variant.rs   | 12 ++---
 lang/fall/src/editor/references/mod.rs        |  4 +-
 lang/fall/syntax/src/ast_ext.rs               |  8 ++--
 lang/fall/syntax/src/fall.fall                | 14 +++---
 lang/fall/syntax/src/fall.rs                  | 28 ++++++------
 8 files changed, 64 insertions(+), 53 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..886980c 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -3,7 +3,7 @@ use tera::Context;
 
 use fall_tree::{Text, AstNode};
 use lang_fall::syntax::{FallFile, SynRule, LexRule, Expr, BlockExpr,
-                        MethodDef, Parameter};
+                        MethodDef, Parameter, AstNodeDef, AstClassDef};
 use lang_fall::{RefKind, CallKind, MethodKind, Analysis, PratVariant, PrattOp, Arity, ChildKind};
 
 use fall_parse as dst;
@@ -72,7 +72,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
         context.insert("lex_rules", &lex_rules);
 
-        let verbatim = self.file().verbatim_def().map(|v| v.contents());
+        let verbatim = self.file().verbatim_def().and_then(|v| v.contents());
         context.insert("verbatim", &verbatim);
         context.insert("has_whitespace_binder", &verbatim.map(|t| t.contains("whitespace_binder")).unwrap_or(false));
 
@@ -80,8 +80,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
         if let Some(ast) = self.file().ast_def() {
             context.insert("ast_nodes", &ast.ast_nodes().map(|node| {
                 Ok(CtxAstNode {
-                    struct_name: camel(node.name()),
-                    node_type_name: scream(node.name()),
+                    struct_name: camel(node_name(node)?),
+                    node_type_name: scream(node_name(node)?),
                     methods: node.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -89,15 +89,15 @@ impl<'a, 'f> Codegen<'a, 'f> {
             }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_classes", &ast.ast_classes().map(|class| {
-                CtxAstClass {
-                    enum_name: camel(class.name()),
+                Ok(CtxAstClass {
+                    enum_name: camel(class_name(class)?),
                     variants: class.variants().map(|variant| (scream(variant), camel(variant))).collect(),
-                }
-            }).collect::<Vec<_>>());
+                })
+            }).collect::<Result<Vec<_>>>()?);
 
             context.insert("ast_traits", &ast.ast_traits().map(|trait_| {
                 Ok(CtxAstTrait {
-                    trait_name: camel(trait_.name()),
+                    trait_name: camel(trait_.name().ok_or(format_err!("Trait without a name"))?),
                     methods: trait_.methods()
                         .map(|method| self.gen_method(method))
                         .collect::<Result<Vec<CtxMethod>>>()?,
@@ -105,8 +105,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         .filter(|&node| {
                             self.analysis.ast_node_traits(node).contains(&trait_)
                         })
-                        .map(|node| camel(node.name()))
-                        .collect(),
+                        .map(|node| Ok(camel(node_name(node)?)))
+                        .collect::<Result<Vec<_>>>()?,
                 })
             }).collect::<Result<Vec<_>>>()?);
         }
@@ -149,7 +149,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = rule.body().ok_or(format_err!("Rule without a body"))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
@@ -368,23 +369,23 @@ impl<'a, 'f> Codegen<'a, 'f> {
             MethodKind::NodeAccessor(kind, arity) => {
                 match (kind, arity) {
                     (ChildKind::AstNode(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                        (format!("{}<'f>", camel(node_name(n)?)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
                     (ChildKind::AstNode(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                        (format!("Option<{}<'f>>", camel(node_name(n)?)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
                     (ChildKind::AstNode(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(node_name(n)?)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::AstClass(n), Arity::Single) =>
-                        (format!("{}<'f>", camel(n.name())),
+                        (format!("{}<'f>", camel(class_name(n)?)),
                          "rt::AstChildren::new(self.node().children()).next().unwrap()".to_owned()),
                     (ChildKind::AstClass(n), Arity::Optional) =>
-                        (format!("Option<{}<'f>>", camel(n.name())),
+                        (format!("Option<{}<'f>>", camel(class_name(n)?)),
                          "rt::AstChildren::new(self.node().children()).next()".to_owned()),
                     (ChildKind::AstClass(n), Arity::Many) =>
-                        (format!("rt::AstChildren<'f, {}<'f>>", camel(n.name())),
+                        (format!("rt::AstChildren<'f, {}<'f>>", camel(class_name(n)?)),
                          "rt::AstChildren::new(self.node().children())".to_owned()),
 
                     (ChildKind::Token(lex_rule), arity) => {
@@ -407,6 +408,14 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 }
 
+fn node_name<'f>(node: AstNodeDef<'f>) -> Result<Text<'f>> {
+    node.name().ok_or(format_err!("Node without a name"))
+}
+
+fn class_name<'f>(class: AstClassDef<'f>) -> Result<Text<'f>> {
+    class.name().ok_or(format_err!("Class without a name"))
+}
+
 
 #[derive(Serialize)]
 struct CtxLexRule<'f> {
diff --git a/lang/fall/src/analysis/query/ast_node_traits.rs b/lang/fall/src/analysis/query/ast_node_traits.rs
index bb9ca17..7ed7730 100644
--- a/lang/fall/src/analysis/query/ast_node_traits.rs
+++ b/lang/fall/src/analysis/query/ast_node_traits.rs
@@ -9,7 +9,7 @@ use crate::syntax::{AstTraitDef, COLON, IDENT};
 impl<'f> db::OnceQExecutor<'f> for super::AstNodeTraits<'f> {
     fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> Arc<Vec<AstTraitDef<'f>>> {
         let traits: HashMap<Text, AstTraitDef> = db.file().ast_def().map(|ast| {
-            ast.ast_traits().map(|trait_| (trait_.name(), trait_)).collect()
+            ast.ast_traits().filter_map(|trait_| Some((trait_.name()?, trait_))).collect()
         }).unwrap_or_default();
 
         let refs = self.0.node().children()
diff --git a/lang/fall/src/analysis/query/resolve_method.rs b/lang/fall/src/analysis/query/resolve_method.rs
index 4763681..72bb135 100644
--- a/lang/fall/src/analysis/query/resolve_method.rs
+++ b/lang/fall/src/analysis/query/resolve_method.rs
@@ -29,10 +29,10 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolveMethod<'f> {
 
 fn child_kind<'f>(file: FallFile<'f>, selector: AstSelector<'f>) -> Option<ChildKind<'f>> {
     let ast_def = file.ast_def()?;
-    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == selector.child()) {
+    if let Some(ast) = ast_def.ast_nodes().find(|a| a.name() == Some(selector.child())) {
         return Some(ChildKind::AstNode(ast));
     }
-    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == selector.child()) {
+    if let Some(class) = ast_def.ast_classes().find(|c| c.name() == Some(selector.child())) {
         return Some(ChildKind::AstClass(class));
     }
     if let Some(lex_rule) = file.tokenizer_def().and_then(|td| td.lex_rules().find(|r| r.node_type() == selector.child())) {
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..1c8fd53 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -28,14 +28,16 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        let body = rule.body()?;
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +63,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +77,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +90,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..27ac78b 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -110,13 +110,13 @@ impl<'f> From<Parameter<'f>> for Declaration<'f> {
 
 impl<'f> From<AstNodeDef<'f>> for Declaration<'f> {
     fn from(rule: AstNodeDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
 impl<'f> From<AstClassDef<'f>> for Declaration<'f> {
     fn from(rule: AstClassDef<'f>) -> Self {
-        Declaration::with_name_ident(rule.node(), Some(rule.name_ident()))
+        Declaration::with_name_ident(rule.node(), rule.name_ident())
     }
 }
 
diff --git a/lang/fall/syntax/src/ast_ext.rs b/lang/fall/syntax/src/ast_ext.rs
index 2f1e0bb..09df3a4 100644
--- a/lang/fall/syntax/src/ast_ext.rs
+++ b/lang/fall/syntax/src/ast_ext.rs
@@ -111,8 +111,8 @@ impl<'f> SynRule<'f> {
 }
 
 impl<'f> VerbatimDef<'f> {
-    pub fn contents(&self) -> Text<'f> {
-        lit_body(self.literal_string()).trim()
+    pub fn contents(&self) -> Option<Text<'f>> {
+        self.literal_string().map(|s| lit_body(s).trim())
     }
 }
 
@@ -123,8 +123,8 @@ impl<'f> TestDef<'f> {
 }
 
 impl<'f> AstClassDef<'f> {
-    pub fn name(&self) -> Text<'f> {
-        child_of_type(self.node(), IDENT).unwrap().text()
+    pub fn name(&self) -> Option<Text<'f>> {
+        child_of_type(self.node(), IDENT).map(|n| n.text())
     }
 
     pub fn variants<'a>(&'a self) -> Box<dyn Iterator<Item=Text<'f>> + 'a> {
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 9cf2dfb..5e3ca91 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -325,7 +325,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
@@ -349,7 +349,7 @@ ast {
   node attribute_value { }
 
   node verbatim_def {
-    literal_string hash_string.text
+    literal_string hash_string?.text
   }
 
   node ast_def {
@@ -359,19 +359,19 @@ ast {
   }
 
   node ast_node_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_trait_def {
-    name_ident ident
-    name ident.text
+    name_ident ident?
+    name ident?.text
     methods method_def*
   }
 
   node ast_class_def {
-    name_ident ident
+    name_ident ident?
   }
 
   node method_def {
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 7d5f426..aab44c2 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -302,8 +302,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
@@ -449,8 +449,8 @@ impl<'f> rt::AstNode<'f> for VerbatimDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> VerbatimDef<'f> {
-    pub fn literal_string(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), HASH_STRING).text()
+    pub fn literal_string(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), HASH_STRING).map(|n| n.text())
     }
 }
 impl<'f> ::std::fmt::Debug for VerbatimDef<'f> {
@@ -503,11 +503,11 @@ impl<'f> rt::AstNode<'f> for AstNodeDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstNodeDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -533,11 +533,11 @@ impl<'f> rt::AstNode<'f> for AstTraitDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstTraitDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
-    pub fn name(&self) -> rt::Text<'f> {
-        rt::child_of_type_exn(self.node(), IDENT).text()
+    pub fn name(&self) -> Option<rt::Text<'f>> {
+        rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
     pub fn methods(&self) -> rt::AstChildren<'f, MethodDef<'f>> {
         rt::AstChildren::new(self.node().children())
@@ -563,8 +563,8 @@ impl<'f> rt::AstNode<'f> for AstClassDef<'f> {
     fn node(self) -> rt::Node<'f> { self.node }
 }
 impl<'f> AstClassDef<'f> {
-    pub fn name_ident(&self) -> rt::Node<'f> {
-        self.node().children().find(|n| n.ty() == IDENT).unwrap()
+    pub fn name_ident(&self) -> Option<rt::Node<'f>> {
+        self.node().children().find(|n| n.ty() == IDENT)
     }
 }
 impl<'f> ::std::fmt::Debug for AstClassDef<'f> {
-- 
2.43.0


From 7d8353f410b7c4d314844a9256017cd6e0bcaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 19/46] fix: do not extract the body of a rule, which has to
 stay a block

---
 lang/fall/src/editor/actions/extract_rule.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/fall/src/editor/actions/extract_rule.rs b/lang/fall/src/editor/actions/extract_rule.rs
index c314338..d29dadd 100644
--- a/lang/fall/src/editor/actions/extract_rule.rs
+++ b/lang/fall/src/editor/actions/extract_rule.rs
@@ -15,6 +15,11 @@ pub fn extract_rule(file: &File, range: TextRange, apply: bool) -> Option<Action
         return None;
     }
 
+    // The body of a rule has to stay a block.
+    if expr.parent().and_then(SynRule::wrap).is_some() {
+        return None;
+    }
+
     if !apply {
         return Some(ActionResult::Available)
     }
-- 
2.43.0


From 61b951bddf9b03905635d5e9fe8bdc911d7e56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 20/46] fix: do not add braces around an aliased import

---
 lang/rust/src/editor/actions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/actions.rs b/lang/rust/src/editor/actions.rs
index 8fc6b10..aa78a95 100644
--- a/lang/rust/src/editor/actions.rs
+++ b/lang/rust/src/editor/actions.rs
@@ -1,7 +1,7 @@
 use fall_tree::{File, TextUnit, FileEdit, AstNode};
-use fall_tree::search::ast;
+use fall_tree::search::{ast, child_of_type};
 use fall_editor::actions::ActionResult;
-use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl};
+use crate::syntax::{NameOwner, TypeParametersOwner, EnumDef, StructDef, UseDecl, ALIAS};
 
 
 pub const ACTIONS: &[(&str, fn(&File, TextUnit, bool) -> Option<ActionResult>)] = &[
@@ -13,7 +13,7 @@ fn add_use_braces(file: &File, offset: TextUnit, apply: bool) -> Option<ActionRe
     let use_decl: UseDecl = ast::node_at_offset(file.root(), offset)?;
     let path = use_decl.path()?;
     let last_segment = path.segment()?.node();
-    if use_decl.spec().is_some() {
+    if use_decl.spec().is_some() || child_of_type(use_decl.node(), ALIAS).is_some() {
         return None;
     }
     if !apply {
-- 
2.43.0


From 929b40f1b3715db8611aaab424485ecfcc461033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 21/46] fix: keep the reference to an extracted rule apart from
 words around it

---
 lang/fall/src/editor/actions/extract_rule.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/actions/extract_rule.rs b/lang/fall/src/editor/actions/extract_rule.rs
index d29dadd..67e7b57 100644
--- a/lang/fall/src/editor/actions/extract_rule.rs
+++ b/lang/fall/src/editor/actions/extract_rule.rs
@@ -1,4 +1,4 @@
-use fall_tree::{AstNode, File, Node, TextRange, FileEdit};
+use fall_tree::{AstNode, File, Node, TextRange, TextSuffix, FileEdit, tu};
 use fall_tree::search::{find_covering_node, ancestors};
 use fall_tree::search::ast;
 use fall_editor::actions::ActionResult;
@@ -29,8 +29,18 @@ pub fn extract_rule(file: &File, range: TextRange, apply: bool) -> Option<Action
 
     let new_rule = format!("\n\nrule new_rule {{\n  {}\n}}", file.text().slice(range));
 
+    // Keep the reference apart from words that touched the expression.
+    let is_word = |c: Option<char>| c.map_or(false, |c| c == '_' || c.is_alphanumeric());
+    let before = file.text().slice(TextRange::from_to(tu(0), range.start())).chars().next_back();
+    let after = file.text().slice(TextSuffix::from(range.end())).chars().next();
+    let reference = format!(
+        "{}new_rule{}",
+        if is_word(before) { " " } else { "" },
+        if is_word(after) { " " } else { "" },
+    );
+
     let mut edit = FileEdit::new(file);
-    edit.replace_substring(range, "new_rule".to_owned());
+    edit.replace_substring(range, reference);
     edit.insert_text_after(rule, new_rule);
     Some(ActionResult::Applied(edit.into_text_edit()))
 }
-- 
2.43.0


From 787952e5d4804d903157185782c9f2b41bca7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 22/46] fix: format pipes next to an expression that spans
 lines

---
 lang/fall/src/editor/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index 99e9ebf..bd73a7a 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -63,7 +63,7 @@ impl<'r> Spacer<'r> {
                     _ => continue
                 };
 
-            if ws_node.text().contains("\n") {
+            if ws_node.ty() == self.ws_type && ws_node.text().contains("\n") {
                 continue
             }
 
-- 
2.43.0


From e46a5e4e0a0dc6dbc8efa54e96cd2ff8d5b33fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 23/46] fix: format pipes next to an empty alternative once

---
 lang/fall/src/editor/formatter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index bd73a7a..a3c5ad8 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -51,7 +51,7 @@ impl<'r> Spacer<'r> {
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
-                match (rule, sibling(node, Direction::Right), sibling(node, Direction::Left)) {
+                match (rule, neighbor(node, Direction::Right), neighbor(node, Direction::Left)) {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
@@ -80,6 +80,15 @@ impl<'r> Spacer<'r> {
 }
 
 
+/// The nearest sibling that is not empty, like an alternative without parts is.
+fn neighbor(node: Node, dir: Direction) -> Option<Node> {
+    let mut node = sibling(node, dir)?;
+    while node.range().is_empty() {
+        node = sibling(node, dir)?;
+    }
+    Some(node)
+}
+
 fn reformat_node<'f>(node: Node<'f>, edit: &mut FileEdit<'f>, spacer: &Spacer) {
     spacer.apply(node, edit);
     for child in node.children() {
-- 
2.43.0


From 310077686ded4efba1a339d4fcc8d55da8f6018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 24/46] fix: format a tab next to a pipe as a blank

---
 lang/fall/src/editor/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index a3c5ad8..0619abc 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -1,4 +1,4 @@
-use fall_tree::{Node, NodeType, File, TextEdit, FileEdit, tu};
+use fall_tree::{Node, NodeType, File, TextEdit, FileEdit};
 use fall_tree::search::{sibling, Direction};
 use crate::syntax::{PIPE, L_ANGLE, R_ANGLE, WHITESPACE};
 
@@ -70,7 +70,7 @@ impl<'r> Spacer<'r> {
             match (spaces, ws_node.ty() == self.ws_type) {
                 (Spaces::None, true) => edit.delete(ws_node),
                 (Spaces::Single, false) => edit.insert_text_after(before_ws_node, " ".to_owned()),
-                (Spaces::Single, true) if ws_node.text().len() != tu(1) => {
+                (Spaces::Single, true) if ws_node.text() != " " => {
                     edit.replace_with_text(ws_node, " ".to_owned())
                 }
                 _ => continue
-- 
2.43.0


From 21a514c967f145ceff84e94a642b2e83c21ed4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 25/46] fix: settle which rule formats the space between two
 tokens

---
 lang/fall/src/editor/formatter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/editor/formatter.rs b/lang/fall/src/editor/formatter.rs
index 0619abc..0621d4e 100644
--- a/lang/fall/src/editor/formatter.rs
+++ b/lang/fall/src/editor/formatter.rs
@@ -48,6 +48,14 @@ impl<'r> Spacer<'r> {
         })
     }
 
+    fn ends_with_rule_after(&self, node: Node) -> bool {
+        if node.ty() == self.ws_type {
+            neighbor(node, Direction::Left).map_or(false, |prev| self.has_rule_after(prev))
+        } else {
+            self.has_rule_after(node)
+        }
+    }
+
     fn apply<'f>(&self, node: Node<'f>, edit: &mut FileEdit<'f>) {
         for &rule in self.rules {
             let (spaces, ws_node, before_ws_node) =
@@ -55,8 +63,8 @@ impl<'r> Spacer<'r> {
                     (Rule::After(rty, spaces), Some(next), _) if rty == node.ty() => {
                         (spaces, next, node)
                     }
-                    // The space after `prev` is taken care of by its own rule.
-                    (Rule::Before(rty, _), _, Some(prev)) if rty == node.ty() && self.has_rule_after(prev) => continue,
+                    // The space after a token is taken care of by its own rule.
+                    (Rule::Before(rty, _), _, Some(prev)) if rty == node.ty() && self.ends_with_rule_after(prev) => continue,
                     (Rule::Before(rty, spaces), _, Some(prev)) if rty == node.ty() => {
                         (spaces, prev, prev)
                     }
-- 
2.43.0


From b762a6217a6504efbe3e5babab434eeea3f8e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 26/46] fix: report duplicate rules of grammars without
 references

---
 lang/fall/src/analysis/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..19fa627 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,7 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From 5409306c773a03ab3bc377a09bc9294d79476f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 27/46] fix: report contexts used once when all calls are
 malformed

---
 lang/fall/src/analysis/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index 19fa627..bf9e936 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -67,6 +67,7 @@ impl<'f> Analysis<'f> {
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
         self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From 2ab1f2e9413559821d62f732e764dfed628b86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 28/46] fix: order diagnostics independently of earlier queries

---
 lang/fall/src/analysis/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index bf9e936..d0bba57 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -70,13 +70,14 @@ impl<'f> Analysis<'f> {
         self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
-        result.sort_by_key(|d| {
+        fn key(d: &Diagnostic) -> impl Ord + '_ {
             let priority = match d.severity {
                 Severity::Error => 0,
                 Severity::Warning => 1,
             };
-            (priority, d.range.start(), d.range.end())
-        });
+            (priority, d.range.start(), d.range.end(), d.message.as_str())
+        }
+        result.sort_by(|a, b| key(a).cmp(&key(b)));
         result
     }
 }
-- 
2.43.0


From 147ca667c81c5b8f1fc385bde6f9041d856d65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 29/46] fix: index all symbols that share a name

---
 lang/rust/src/editor/symbol_index.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..1ce8493 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -74,10 +74,13 @@ impl Query {
 
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
-            let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let first = &file.symbols[idx as usize];
+            let same_name = file.symbols[idx as usize..].iter()
+                .take_while(|s| s.name.to_lowercase() == first.name.to_lowercase());
+            for symbol in same_name {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -103,11 +106,14 @@ impl FileSymbols {
             })
         });
         symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // Maps a name to the first of the symbols that share it.
+        let mut names: Vec<(String, u64)> = symbols.iter()
+            .map(|s| s.name.to_lowercase())
+            .zip(0u64..)
+            .collect();
+        names.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(names).unwrap();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From 0e9cfdd1d7d6af8e00bfc9bab39489e14c27f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 30/46] fix: match letters, not bytes, when searching symbols

---
 lang/rust/src/editor/fst_subseq.rs | 44 ++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/lang/rust/src/editor/fst_subseq.rs b/lang/rust/src/editor/fst_subseq.rs
index 75b5c2b..3fb723e 100644
--- a/lang/rust/src/editor/fst_subseq.rs
+++ b/lang/rust/src/editor/fst_subseq.rs
@@ -9,32 +9,48 @@ impl<'a> FstSubSeq<'a> {
     }
 }
 
+/// `matched` bytes of the query, that is, whole characters, were seen so far.
+/// `partial` is how many bytes of the next one the current character agrees with,
+/// or nothing, if it is a different character.
+#[derive(Clone, Copy)]
+pub struct State { matched: usize, partial: Option<usize> }
+
 impl<'a> fst::Automaton for FstSubSeq<'a> {
-    type State = usize;
+    type State = State;
 
-    fn start(&self) -> usize {
-        0
+    fn start(&self) -> State {
+        State { matched: 0, partial: None }
     }
 
-    fn is_match(&self, &state: &usize) -> bool {
-        state == self.query.len()
+    fn is_match(&self, state: &State) -> bool {
+        state.matched == self.query.len()
     }
 
-    fn accept(&self, &state: &usize, byte: u8) -> usize {
-        if state >= self.query.len() {
-            return state;
+    fn accept(&self, state: &State, byte: u8) -> State {
+        let State { matched, partial } = *state;
+        if matched >= self.query.len() {
+            return *state;
         }
-        if byte == self.query.as_bytes()[state] {
-            return state + 1;
+        let is_continuation = byte & 0b1100_0000 == 0b1000_0000;
+        let partial = if is_continuation { partial } else { Some(0) };
+        match partial {
+            Some(n) if byte == self.query.as_bytes()[matched + n] => {
+                let seen = matched + n + 1;
+                if self.query.is_char_boundary(seen) {
+                    State { matched: seen, partial: None }
+                } else {
+                    State { matched, partial: Some(n + 1) }
+                }
+            }
+            _ => State { matched, partial: None },
         }
-        return state;
     }
 
-    fn can_match(&self, _: &usize) -> bool {
+    fn can_match(&self, _: &State) -> bool {
         true
     }
 
-    fn will_always_match(&self, &state: &usize) -> bool {
-        state == self.query.len()
+    fn will_always_match(&self, state: &State) -> bool {
+        state.matched == self.query.len()
     }
 }
-- 
2.43.0


From 9f45b214188e52173604e09004e4ac1b1bac6174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 31/46] fix: find symbols with a final sigma in their names

---
 lang/rust/src/editor/symbol_index.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 1ce8493..881b57a 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -49,6 +49,11 @@ impl SymbolIndex {
     }
 }
 
+/// Letter by letter, unlike `str::to_lowercase`, so that it agrees for names and for parts of them.
+fn lowercase(s: &str) -> String {
+    s.chars().flat_map(char::to_lowercase).collect()
+}
+
 struct Query {
     query: String,
     all_symbols: bool,
@@ -57,10 +62,7 @@ struct Query {
 impl Query {
     fn new(query: &str) -> Query {
         let all_symbols = query.contains("#");
-        let query: String = query.chars()
-            .filter(|&c| c != '#')
-            .flat_map(char::to_lowercase)
-            .collect();
+        let query = lowercase(&query.replace("#", ""));
         Query { query, all_symbols }
     }
 
@@ -76,7 +78,7 @@ impl Query {
         for idx in file.map.search(a).into_stream().into_values() {
             let first = &file.symbols[idx as usize];
             let same_name = file.symbols[idx as usize..].iter()
-                .take_while(|s| s.name.to_lowercase() == first.name.to_lowercase());
+                .take_while(|s| lowercase(&s.name) == lowercase(&first.name));
             for symbol in same_name {
                 if self.all_symbols || is_type(symbol.ty) {
                     acc(symbol.clone())
@@ -105,11 +107,11 @@ impl FileSymbols {
                 lc_range: [line_index.translate(range.start()), line_index.translate(range.end())],
             })
         });
-        symbols.sort_by_key(|s| s.name.to_lowercase());
+        symbols.sort_by_key(|s| lowercase(&s.name));
 
         // Maps a name to the first of the symbols that share it.
         let mut names: Vec<(String, u64)> = symbols.iter()
-            .map(|s| s.name.to_lowercase())
+            .map(|s| lowercase(&s.name))
             .zip(0u64..)
             .collect();
         names.dedup_by(|a, b| a.0 == b.0);
-- 
2.43.0


From c25c1164692a1a4131eaa7d47d2ca5faafbf9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 32/46] fix: forget index entries below vanished and replaced
 directories

---
 indxr/src/lib.rs | 58 +++++++++++++-----------------------------------
 1 file changed, 16 insertions(+), 42 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..4c0584c 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -107,50 +107,24 @@ fn watch<V>(index: &FileIndexImpl<V>) {
 }
 
 impl<V> FileIndexImpl<V> {
+    /// Makes the entries at and below the path agree with the disk.
     fn change(&self, path: &Path) {
-        let added = path.exists();
-        match (path.is_dir(), added) {
-            (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
-                }
-                let value = (self.mapper)(path);
-                let mut data = self.data.lock().unwrap();
-                match value {
-                    None => {
-                        data.remove(path);
-                    },
-                    Some(value) => {
-                        let file = IndexedFile { path: path.to_owned(), value};
-                        data.insert(path.to_owned(), file);
-                    }
-                };
-            }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
-            }
-            (true, false) => {
-                self.data.lock().unwrap().retain(|k, _| {
-                    !k.starts_with(path)
-                });
-            }
-            (true, true) => {
-                let files = WalkDir::new(path)
-                    .into_iter()
-                    .filter_map(|entry| entry.ok())
-                    .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
+        let files = WalkDir::new(path)
+            .into_iter()
+            .filter_map(|entry| entry.ok())
+            .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
 
-                let mut local = HashMap::new();
-                for entry in files {
-                    let path = entry.path().to_owned();
-                    if let Some(value) = (self.mapper)(&path) {
-                        let file = IndexedFile { path: path.clone(), value };
-                        local.insert(path.clone(), file);
-                    }
-                }
-
-                self.data.lock().unwrap().extend(local);
+        let mut local = HashMap::new();
+        for entry in files {
+            let path = entry.path().to_owned();
+            if let Some(value) = (self.mapper)(&path) {
+                let file = IndexedFile { path: path.clone(), value };
+                local.insert(path, file);
             }
-        };
+        }
+
+        let mut data = self.data.lock().unwrap();
+        data.retain(|k, _| !k.starts_with(path));
+        data.extend(local);
     }
 }
-- 
2.43.0


From f1b8580b1df0cb84b8716f5d58d9ad7874536f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 33/46] fix: watch the roots of an index before indexing them

---
 indxr/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 4c0584c..bbbc54a 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -65,20 +65,25 @@ pub struct FileIndexImpl<V> {
 }
 
 fn watch<V>(index: &FileIndexImpl<V>) {
+    // Watch first, so that no change made during the initial indexing is lost.
+    let (tx, rx) = channel();
+    let _watchers = index.file_set.roots.iter().filter_map(|path| {
+        let tx = tx.clone();
+        let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
+        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
+            error!("can not watch {}: {:?}", path.display(), e);
+            return None;
+        }
+        Some(watcher)
+    }).collect::<Vec<_>>();
+
     let initial_indexing_start = ::std::time::Instant::now();
     for path in index.file_set.roots.iter() {
         index.change(path)
     }
     let elapsed = initial_indexing_start.elapsed();
     info!("indexing took = {}s", elapsed.as_secs());
-    let (tx, rx) = channel();
 
-    let _watchers = index.file_set.roots.iter().map(|path| {
-        let tx = tx.clone();
-        let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
-        watcher.watch(path, RecursiveMode::Recursive).unwrap();
-        watcher
-    }).collect::<Vec<_>>();
     loop {
         match rx.recv() {
             Ok(event) => {
-- 
2.43.0


From 82f7f532d16cb6e40dbb4d115462f50440846181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 34/46] fix: do not lose files that come and go between index
 updates

---
 indxr/src/lib.rs | 54 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index bbbc54a..ba7d899 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -4,14 +4,14 @@ extern crate simplelog;
 extern crate walkdir;
 extern crate notify;
 
-use std::sync::mpsc::channel;
-use std::time::Duration;
+use std::sync::mpsc::{channel, RecvTimeoutError};
+use std::time::{Duration, Instant};
 use std::path::{Path, PathBuf};
 use std::collections::HashMap;
 use std::sync::{Mutex, Arc};
 
 use walkdir::WalkDir;
-use notify::{RecommendedWatcher, Watcher, RecursiveMode, DebouncedEvent};
+use notify::{op, RawEvent, RecommendedWatcher, Watcher, RecursiveMode};
 
 // The V type should be Send + 'static but that can not be enforced on a type alias
 type Mapper<V> = Box<dyn Fn(&Path) -> Option<V> + Sync + Send>;
@@ -69,7 +69,7 @@ fn watch<V>(index: &FileIndexImpl<V>) {
     let (tx, rx) = channel();
     let _watchers = index.file_set.roots.iter().filter_map(|path| {
         let tx = tx.clone();
-        let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
+        let mut watcher: RecommendedWatcher = Watcher::new_raw(tx).unwrap();
         if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
             error!("can not watch {}: {:?}", path.display(), e);
             return None;
@@ -77,36 +77,42 @@ fn watch<V>(index: &FileIndexImpl<V>) {
         Some(watcher)
     }).collect::<Vec<_>>();
 
-    let initial_indexing_start = ::std::time::Instant::now();
+    let initial_indexing_start = Instant::now();
     for path in index.file_set.roots.iter() {
         index.change(path)
     }
     let elapsed = initial_indexing_start.elapsed();
     info!("indexing took = {}s", elapsed.as_secs());
 
+    // The raw events say which paths to look at again, each a moment after it was first reported.
+    // Debounced events would leave out a file which was indexed between its creation and removal.
+    let delay = Duration::from_millis(100);
+    let mut pending: HashMap<PathBuf, Instant> = HashMap::new();
     loop {
-        match rx.recv() {
-            Ok(event) => {
-                info!("event: {:?}", event);
-                match event {
-                    DebouncedEvent::NoticeWrite(path)
-                    | DebouncedEvent::NoticeRemove(path)
-                    | DebouncedEvent::Create(path)
-                    | DebouncedEvent::Write(path)
-                    | DebouncedEvent::Remove(path) => {
-                        index.change(&path)
-                    }
-                    DebouncedEvent::Rename(p1, p2) => {
-                        index.change(&p1);
-                        index.change(&p2);
+        let timeout = if pending.is_empty() { Duration::from_secs(3600) } else { delay / 2 };
+        match rx.recv_timeout(timeout) {
+            Ok(RawEvent { path, op: Ok(op), .. }) => {
+                info!("event: {:?} {:?}", op, path);
+                if let Some(path) = path {
+                    pending.entry(path).or_insert_with(Instant::now);
+                }
+                if op.contains(op::RESCAN) {
+                    for path in index.file_set.roots.iter() {
+                        pending.entry(path.clone()).or_insert_with(Instant::now);
                     }
-                    _ => continue,
                 }
-            },
-            Err(e) => {
-                error!("watch error: {:?}", e);
-                continue
             }
+            Ok(RawEvent { op: Err(e), .. }) => error!("watch error: {:?}", e),
+            Err(RecvTimeoutError::Timeout) => (),
+            Err(RecvTimeoutError::Disconnected) => return,
+        }
+        let ready = pending.iter()
+            .filter(|(_, since)| since.elapsed() >= delay)
+            .map(|(path, _)| path.clone())
+            .collect::<Vec<_>>();
+        for path in ready {
+            pending.remove(&path);
+            index.change(&path);
         }
     }
 }
-- 
2.43.0


From 3ade5644668de178abc25589650b6271964050a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 35/46] fix: keep watching an index when directories vanish
 meanwhile

---
 indxr/src/lib.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index ba7d899..91be550 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -67,15 +67,13 @@ pub struct FileIndexImpl<V> {
 fn watch<V>(index: &FileIndexImpl<V>) {
     // Watch first, so that no change made during the initial indexing is lost.
     let (tx, rx) = channel();
-    let _watchers = index.file_set.roots.iter().filter_map(|path| {
-        let tx = tx.clone();
-        let mut watcher: RecommendedWatcher = Watcher::new_raw(tx).unwrap();
-        if let Err(e) = watcher.watch(path, RecursiveMode::Recursive) {
-            error!("can not watch {}: {:?}", path.display(), e);
-            return None;
-        }
-        Some(watcher)
+    let mut watchers = index.file_set.roots.iter().map(|path| {
+        let watcher: RecommendedWatcher = Watcher::new_raw(tx.clone()).unwrap();
+        (path.as_path(), watcher)
     }).collect::<Vec<_>>();
+    for path in index.file_set.roots.iter() {
+        watch_path(&mut watchers, path);
+    }
 
     let initial_indexing_start = Instant::now();
     for path in index.file_set.roots.iter() {
@@ -112,11 +110,32 @@ fn watch<V>(index: &FileIndexImpl<V>) {
             .collect::<Vec<_>>();
         for path in ready {
             pending.remove(&path);
+            if path.is_dir() {
+                watch_path(&mut watchers, &path);
+            }
             index.change(&path);
         }
     }
 }
 
+/// Watches everything below the path. Watching stops half way if a directory vanishes meanwhile,
+/// so this takes several attempts.
+fn watch_path(watchers: &mut [(&Path, RecommendedWatcher)], path: &Path) {
+    for (_, watcher) in watchers.iter_mut().filter(|(root, _)| path.starts_with(root)) {
+        for attempt in 1.. {
+            match watcher.watch(path, RecursiveMode::Recursive) {
+                Err(ref e) if attempt == 10 => error!("can not watch {}: {:?}", path.display(), e),
+                Err(_) if path.exists() => {
+                    ::std::thread::sleep(Duration::from_millis(10));
+                    continue;
+                }
+                _ => (),
+            }
+            break;
+        }
+    }
+}
+
 impl<V> FileIndexImpl<V> {
     /// Makes the entries at and below the path agree with the disk.
     fn change(&self, path: &Path) {
-- 
2.43.0


From 0fec8dff6bb01971fac5c240bc541b8938103ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 36/46] fix: forget files moved out of an index while others
 are moved in

---
 indxr/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index 91be550..bd4446e 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -86,6 +86,7 @@ fn watch<V>(index: &FileIndexImpl<V>) {
     // Debounced events would leave out a file which was indexed between its creation and removal.
     let delay = Duration::from_millis(100);
     let mut pending: HashMap<PathBuf, Instant> = HashMap::new();
+    let mut moved_in = false;
     loop {
         let timeout = if pending.is_empty() { Duration::from_secs(3600) } else { delay / 2 };
         match rx.recv_timeout(timeout) {
@@ -94,6 +95,7 @@ fn watch<V>(index: &FileIndexImpl<V>) {
                 if let Some(path) = path {
                     pending.entry(path).or_insert_with(Instant::now);
                 }
+                moved_in |= op.contains(op::CREATE);
                 if op.contains(op::RESCAN) {
                     for path in index.file_set.roots.iter() {
                         pending.entry(path.clone()).or_insert_with(Instant::now);
@@ -115,6 +117,11 @@ fn watch<V>(index: &FileIndexImpl<V>) {
             }
             index.change(&path);
         }
+        // Of a file moved out just before another one is moved in, the watcher tells nothing.
+        if pending.is_empty() && moved_in {
+            moved_in = false;
+            index.data.lock().unwrap().retain(|path, _| path.exists());
+        }
     }
 }
 
-- 
2.43.0


From df474ebef9a3dde102f7781728f815552409db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:05 +0000
Subject: [PATCH 37/46] fix: no panic on a commit or a node type in the wrong
 place

<commit> was recognised by its exact spelling, so that "< commit >", and a
commit outside of a sequence, made the generator panic; and so did <prev_is>
of a rule whose type attribute names no node type.
---
 fall/gen/src/generate/codegen.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 886980c..8d91de0 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -203,9 +203,11 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 dst::Expr::Or(block.alts().map(|e| self.gen_expr(e)).collect::<Result<Vec<_>>>()?),
 
             Expr::SeqExpr(seq) => {
-                fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
-                }
+                let analysis = self.analysis;
+                let is_commit = |part: Expr<'f>| match part {
+                    Expr::CallExpr(call) => analysis.resolve_call(call) == Some(CallKind::Commit),
+                    _ => false,
+                };
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
                     .filter(|&p| !is_commit(p))
@@ -275,9 +277,13 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r)
+                                .ok_or(format_err!("Unknown node type: {}", r.node().text())))
+                            .collect::<Result<Vec<_>>>()?
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit =>
+                        return Err(format_err!("<commit> must be a part of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
-- 
2.43.0


From 1a40493be6c6e5463b78773c06fb6a6799b92b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 38/46] fix: generated parsers compile whatever the texts of
 tokens

The JSON of the rules is put into a raw string literal; a contextual token
like '"##' closed it.
---
 fall/gen/src/generate/codegen.rs | 6 ++++++
 fall/gen/src/generate/mod.rs     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 8d91de0..c8c10f1 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -60,6 +60,12 @@ impl<'a, 'f> Codegen<'a, 'f> {
         }
         let parser = serde_json::to_string(&self.expressions).unwrap();
         context.insert("parser_json", &parser);
+        // The JSON goes into a raw string literal, texts of tokens may contain its closing quote.
+        let mut hashes = "##".to_string();
+        while parser.contains(&format!("\"{}", hashes)) {
+            hashes.push('#');
+        }
+        context.insert("hashes", &hashes);
 
         let lex_rules = self.file().tokenizer_def()
             .ok_or(format_err!("no tokens defined"))?
diff --git a/fall/gen/src/generate/mod.rs b/fall/gen/src/generate/mod.rs
index 42d6418..ba0515a 100644
--- a/fall/gen/src/generate/mod.rs
+++ b/fall/gen/src/generate/mod.rs
@@ -30,7 +30,7 @@ pub fn language() -> &'static rt::Language {
     }
 
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"{{ parser_json }}"##;
+        let parser_json = r{{ hashes }}"{{ parser_json }}"{{ hashes }};
 
         ::fall_parse::ParserDefinition {
             node_types: vec![
-- 
2.43.0


From 9da780d635242670089d722439bb1ec1d2dbf583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 39/46] fix: the generator refuses malformed grammars instead
 of panicking

A private rule with #[replaces], a token accessor with a star, and names of
AST nodes with two underscores in a row or without ASCII letters made it panic.
---
 fall/gen/src/generate/codegen.rs | 12 ++++++++----
 fall/gen/src/util.rs             |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index c8c10f1..b19513d 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -161,7 +161,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
             }
-            (true, _) => unreachable!(),
+            (true, _) => return Err(format_err!("Bad pratt spec")),
             (false, body) => self.gen_expr(body)?
         };
 
@@ -191,7 +191,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 assert_eq!(self.expressions.len() - 1, body.0 as usize);
                 self.expressions.pop().unwrap()
             }
-            _ => unreachable!(),
+            (None, true, _) => return Err(format_err!(
+                "A rule that replaces must have a node type: {}", rule.node().text()
+            )),
         };
 
         Ok(body)
@@ -375,7 +377,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                         ("Option<rt::Text<'f>>".to_owned(),
                          format!("rt::child_of_type(self.node(), {}).map(|n| n.text())", node_type)),
 
-                    Arity::Many => unimplemented!(),
+                    Arity::Many =>
+                        return Err(format_err!("Bad method `{}`", method.node().text())),
                 }
             }
             MethodKind::NodeAccessor(kind, arity) => {
@@ -409,7 +412,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             Arity::Optional =>
                                 ("Option<rt::Node<'f>>".to_owned(),
                                  format!("self.node().children().find(|n| n.ty() == {})", node_type)),
-                            Arity::Many => unimplemented!(),
+                            Arity::Many =>
+                        return Err(format_err!("Bad method `{}`", method.node().text())),
                         }
                     }
                 }
diff --git a/fall/gen/src/util.rs b/fall/gen/src/util.rs
index 6cc6350..b18ca71 100644
--- a/fall/gen/src/util.rs
+++ b/fall/gen/src/util.rs
@@ -7,6 +7,10 @@ pub fn scream(word: Text) -> String {
 pub fn camel(word: Text) -> String {
     word.to_cow()
         .split("_")
-        .map(|w| w[..1].to_ascii_uppercase() + &w[1..])
+        .flat_map(|w| {
+            let mut chars = w.chars();
+            let first = chars.next().map(|c| c.to_ascii_uppercase());
+            first.into_iter().chain(chars)
+        })
         .collect()
 }
-- 
2.43.0


From 60bab76e5443eba54852ff57ed256397867ff18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 40/46] fix: parse nested Rust types in time linear in their
 depth

Types in brackets without `as`, and parameters of function pointers, were
parsed twice, so time was exponential in the depth of nesting.
---
 lang/rust/syntax/src/rust.fall | 8 ++++++--
 lang/rust/syntax/src/rust.rs   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lang/rust/syntax/src/rust.fall b/lang/rust/syntax/src/rust.fall
index d720f94..ce14c17 100644
--- a/lang/rust/syntax/src/rust.fall
+++ b/lang/rust/syntax/src/rust.fall
@@ -394,7 +394,7 @@ pub rule qualified_path {
 
 #[atom]
 pub rule trait_projection_path {
-  <in_angles {type_reference 'as' type_reference}>
+  <in_angles {type_reference <commit> 'as' type_reference}> <commit>
   '::' path_segment
 }
 test r"
@@ -502,7 +502,11 @@ pub rule fn_pointer_type {
 
 #[type(value_param)]
 pub rule anon_value_param {
-  {pattern ':'}? type_reference
+  {<not <not named_param>> pattern ':'}? type_reference
+}
+
+rule named_param {
+  {'&' | 'ref' | 'mut'}* {ident | '_'} ':'
 }
 
 test r#"
diff --git a/lang/rust/syntax/src/rust.rs b/lang/rust/syntax/src/rust.rs
index d1dffcc..a3d4e51 100644
--- a/lang/rust/syntax/src/rust.rs
+++ b/lang/rust/syntax/src/rust.rs
@@ -295,7 +295,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":93,"body":158,"replaceable":false}},{"Or":[161]},{"Or":[163,165,167,169,171,173,175,176]},{"Cached":193},{"Pub":{"ty":94,"body":209,"replaceable":false}},{"Pub":{"ty":95,"body":215,"replaceable":false}},{"Pub":{"ty":96,"body":221,"replaceable":false}},{"Pub":{"ty":97,"body":228,"replaceable":false}},{"Pub":{"ty":98,"body":244,"replaceable":false}},{"Or":[246]},{"Pub":{"ty":99,"body":251,"replaceable":false}},{"Or":[257]},{"Pub":{"ty":100,"body":260,"replaceable":false}},{"Pub":{"ty":101,"body":266,"replaceable":false}},{"Pub":{"ty":102,"body":285,"replaceable":false}},{"Pub":{"ty":103,"body":304,"replaceable":false}},{"Pub":{"ty":104,"body":309,"replaceable":false}},{"Pub":{"ty":105,"body":312,"replaceable":false}},{"Pub":{"ty":106,"body":319,"replaceable":false}},{"Pub":{"ty":107,"body":332,"replaceable":false}},{"Pub":{"ty":108,"body":341,"replaceable":false}},{"Pub":{"ty":109,"body":354,"replaceable":false}},{"Pub":{"ty":110,"body":362,"replaceable":false}},{"Pub":{"ty":111,"body":374,"replaceable":false}},{"Or":[375,376,377,378]},{"Or":[380,382,384,386,388,390,392,394,399]},{"Pub":{"ty":112,"body":409,"replaceable":false}},{"Pub":{"ty":113,"body":423,"replaceable":false}},{"Pub":{"ty":114,"body":427,"replaceable":false}},{"Pub":{"ty":115,"body":431,"replaceable":false}},{"Or":[439]},{"Pub":{"ty":116,"body":446,"replaceable":false}},{"Pub":{"ty":117,"body":450,"replaceable":false}},{"Or":[470]},{"Pub":{"ty":118,"body":475,"replaceable":false}},{"Pub":{"ty":119,"body":495,"replaceable":false}},{"Pub":{"ty":120,"body":505,"replaceable":false}},{"Pub":{"ty":121,"body":520,"replaceable":false}},{"Or":[521]},{"Or":[523]},{"Or":[525]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":528,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":532,"replaceable":false}},{"Pub":{"ty":122,"body":537,"replaceable":false}},{"Pub":{"ty":123,"body":544,"replaceable":false}},{"Pub":{"ty":124,"body":558,"replaceable":false}},{"Pub":{"ty":125,"body":584,"replaceable":false}},{"Pub":{"ty":126,"body":589,"replaceable":false}},{"Pub":{"ty":127,"body":593,"replaceable":false}},{"Pub":{"ty":128,"body":599,"replaceable":false}},{"Or":[600,601,602,603,604,605,606,607,608,609]},{"Pub":{"ty":129,"body":611,"replaceable":false}},{"Pub":{"ty":130,"body":613,"replaceable":false}},{"Pub":{"ty":131,"body":621,"replaceable":false}},{"Pub":{"ty":132,"body":624,"replaceable":false}},{"Pub":{"ty":133,"body":628,"replaceable":false}},{"Pub":{"ty":134,"body":634,"replaceable":true}},{"PubReplace":{"ty":135,"body":638}},{"Pub":{"ty":136,"body":641,"replaceable":false}},{"Pub":{"ty":137,"body":650,"replaceable":false}},{"Pub":{"ty":138,"body":657,"replaceable":false}},{"Pub":{"ty":100,"body":663,"replaceable":false}},{"Pub":{"ty":139,"body":666,"replaceable":false}},{"Or":[667,668,669,670,671,672,673]},{"Pub":{"ty":140,"body":676,"replaceable":false}},{"Pub":{"ty":141,"body":682,"replaceable":true}},{"PubReplace":{"ty":142,"body":694}},{"PubReplace":{"ty":143,"body":706}},{"Pub":{"ty":144,"body":713,"replaceable":false}},{"Pub":{"ty":145,"body":720,"replaceable":false}},{"Pub":{"ty":146,"body":722,"replaceable":false}},{"Pub":{"ty":147,"body":726,"replaceable":false}},{"Pub":{"ty":148,"body":732,"replaceable":true}},{"PubReplace":{"ty":149,"body":736}},{"Pub":{"ty":150,"body":741,"replaceable":false}},{"Pratt":{"atoms":[79,80,83,84,86,87,89,90,91,98,99,102,103,105,109,110,138],"prefixes":[{"ty":184,"op":120,"priority":999},{"ty":185,"op":770,"priority":999},{"ty":186,"op":771,"priority":999},{"ty":187,"op":772,"priority":999},{"ty":197,"op":140,"priority":2}],"infixes":[{"ty":177,"op":747,"priority":999,"has_rhs":false},{"ty":178,"op":756,"priority":999,"has_rhs":false},{"ty":180,"op":764,"priority":999,"has_rhs":false},{"ty":181,"op":765,"priority":999,"has_rhs":false},{"ty":182,"op":766,"priority":999,"has_rhs":false},{"ty":183,"op":769,"priority":12,"has_rhs":false},{"ty":188,"op":780,"priority":11,"has_rhs":true},{"ty":189,"op":786,"priority":10,"has_rhs":true},{"ty":190,"op":792,"priority":9,"has_rhs":true},{"ty":191,"op":798,"priority":8,"has_rhs":true},{"ty":192,"op":800,"priority":7,"has_rhs":true},{"ty":193,"op":806,"priority":6,"has_rhs":true},{"ty":194,"op":807,"priority":5,"has_rhs":true},{"ty":195,"op":809,"priority":4,"has_rhs":true},{"ty":196,"op":811,"priority":3,"has_rhs":true},{"ty":197,"op":812,"priority":2,"has_rhs":true},{"ty":197,"op":139,"priority":2,"has_rhs":false},{"ty":198,"op":836,"priority":1,"has_rhs":true}]}},{"Or":[837,839,841,843,845,847,849,851,853,855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887]},{"Or":[889]},{"Or":[893]},{"Pub":{"ty":152,"body":904,"replaceable":false}},{"Pub":{"ty":153,"body":912,"replaceable":true}},{"PubReplace":{"ty":154,"body":925}},{"Pub":{"ty":155,"body":932,"replaceable":false}},{"Pub":{"ty":156,"body":936,"replaceable":false}},{"Pub":{"ty":157,"body":943,"replaceable":true}},{"PubReplace":{"ty":158,"body":948}},{"Pub":{"ty":159,"body":961,"replaceable":false}},{"Pub":{"ty":160,"body":973,"replaceable":false}},{"Or":[981]},{"Pub":{"ty":161,"body":985,"replaceable":false}},{"Pub":{"ty":162,"body":994,"replaceable":false}},{"Pub":{"ty":163,"body":1004,"replaceable":false}},{"Or":[1005,1006,1007,1008]},{"Or":[1010,1012,1013,1014]},{"Pub":{"ty":164,"body":1023,"replaceable":false}},{"Pub":{"ty":165,"body":1026,"replaceable":false}},{"Pub":{"ty":166,"body":1029,"replaceable":false}},{"Pub":{"ty":167,"body":1040,"replaceable":false}},{"Pub":{"ty":168,"body":1050,"replaceable":false}},{"Pub":{"ty":169,"body":1054,"replaceable":false}},{"Or":[1060]},{"Or":[1062]},{"Pub":{"ty":170,"body":1066,"replaceable":false}},{"Pub":{"ty":171,"body":1071,"replaceable":false}},{"Or":[1074]},{"Pub":{"ty":172,"body":1079,"replaceable":false}},{"Pub":{"ty":173,"body":1089,"replaceable":false}},{"Or":[1095]},{"Pub":{"ty":174,"body":1098,"replaceable":false}},{"Pub":{"ty":175,"body":1100,"replaceable":false}},{"Pub":{"ty":176,"body":1102,"replaceable":false}},{"Pub":{"ty":177,"body":1110,"replaceable":false}},{"Pub":{"ty":178,"body":1121,"replaceable":false}},{"Or":[1125]},{"Pub":{"ty":179,"body":1127,"replaceable":false}},{"Pub":{"ty":180,"body":1137,"replaceable":false}},{"Pub":{"ty":181,"body":1140,"replaceable":false}},{"Pub":{"ty":182,"body":1143,"replaceable":false}},{"Pub":{"ty":183,"body":1148,"replaceable":false}},{"Pub":{"ty":184,"body":1150,"replaceable":false}},{"Or":[1156]},{"Pub":{"ty":185,"body":1159,"replaceable":false}},{"Pub":{"ty":186,"body":1162,"replaceable":false}},{"Pub":{"ty":187,"body":1165,"replaceable":false}},{"Pub":{"ty":188,"body":1175,"replaceable":false}},{"Pub":{"ty":189,"body":1183,"replaceable":false}},{"Pub":{"ty":190,"body":1191,"replaceable":false}},{"Or":[1195,1199]},{"Pub":{"ty":191,"body":1207,"replaceable":false}},{"Pub":{"ty":192,"body":1211,"replaceable":false}},{"Pub":{"ty":193,"body":1219,"replaceable":false}},{"Pub":{"ty":194,"body":1222,"replaceable":false}},{"Or":[1224,1226,1230,1234,1236,1238]},{"Pub":{"ty":195,"body":1242,"replaceable":false}},{"Pub":{"ty":196,"body":1246,"replaceable":false}},{"Pub":{"ty":197,"body":1249,"replaceable":false}},{"Pub":{"ty":197,"body":1251,"replaceable":false}},{"Pub":{"ty":197,"body":1253,"replaceable":false}},{"Pub":{"ty":197,"body":1257,"replaceable":false}},{"Or":[1259,1261]},{"Or":[1269]},{"Pub":{"ty":198,"body":1295,"replaceable":false}},{"Pub":{"ty":199,"body":1298,"replaceable":false}},{"Pub":{"ty":200,"body":1302,"replaceable":false}},{"Or":[1305]},{"Or":[1307]},{"Pub":{"ty":201,"body":1317,"replaceable":false}},{"Pub":{"ty":202,"body":1325,"replaceable":false}},{"Pub":{"ty":203,"body":1340,"replaceable":false}},{"Pub":{"ty":204,"body":1369,"replaceable":false}},{"Or":[1379]},{"Or":[1384]},{"Or":[1389]},{"Or":[1394]},{"Or":[1399]},{"Or":[1407]},{"Or":[1422]},{"And":[[1],null]},{"Or":[157]},{"WithSkip":[2,3]},{"Rep":159},{"And":[[160],null]},{"Token":11},{"And":[[162],null]},{"ContextualToken":[4,"union"]},{"And":[[164],null]},{"Token":16},{"And":[[166],null]},{"Token":12},{"And":[[168],null]},{"Token":13},{"And":[[170],null]},{"Token":17},{"And":[[172],null]},{"Token":29},{"And":[[174],null]},{"And":[[25],null]},{"Opt":36},{"And":[[145,177],null]},{"Or":[178]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[180,181,182,183,184,185,186,187,188]},{"Inject":[179,189]},{"And":[[190],null]},{"And":[[28],null]},{"Or":[191,192]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[196,5],null]},{"Or":[197]},{"Opt":198},{"And":[[199],null]},{"Or":[195,200]},{"And":[[38,201],null]},{"Token":60},{"Opt":203},{"And":[[204,5],null]},{"Or":[202,205]},{"Token":58},{"And":[[194,206,207],1]},{"Or":[208]},{"Token":67},{"And":[[210],null]},{"Call":[150,[[2,6]]]},{"Call":[151,[[3,212]]]},{"And":[[213],null]},{"Or":[211,214]},{"Token":18},{"And":[[216],null]},{"Token":92},{"Opt":48},{"And":[[218,219],1]},{"Or":[217,220]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[222,223,224,225,226],2]},{"Or":[227]},{"Token":21},{"Opt":229},{"Token":35},{"Opt":231},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[91],null]},{"Token":58},{"And":[[240],null]},{"Or":[239,241]},{"And":[[230,232,233,234,235,236,11,237,238,242],4]},{"Or":[243]},{"Token":51},{"And":[[245,49],null]},{"Token":7},{"Token":90},{"Opt":248},{"And":[[247,249],null]},{"Or":[250]},{"Opt":14},{"Call":[150,[[2,12]]]},{"And":[[252,253],null]},{"Or":[254]},{"Call":[152,[[4,255]]]},{"And":[[256],null]},{"Token":59},{"And":[[63,258,49],1]},{"Or":[259]},{"Token":59},{"And":[[261,49],null]},{"Or":[262]},{"Opt":263},{"And":[[63,264],null]},{"Or":[265]},{"And":[[120],null]},{"Token":27},{"And":[[268],null]},{"Or":[267,269]},{"Opt":270},{"Token":18},{"Token":60},{"Not":273},{"Token":59},{"And":[[275,49],null]},{"Or":[276]},{"Opt":277},{"Token":61},{"And":[[279],null]},"Eof",{"And":[[281],null]},{"Or":[280,282]},{"And":[[271,272,274,278,283],3]},{"Or":[284]},{"Token":11},{"And":[[286],null]},{"ContextualToken":[4,"union"]},{"And":[[288],null]},{"Or":[287,289]},{"Token":92},{"Opt":31},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,293]]]},{"And":[[294],null]},{"Token":58},{"And":[[296],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,298]]]},{"Token":58},{"And":[[299,300],null]},{"Or":[295,297,301]},{"And":[[290,291,292,302],1]},{"Or":[303]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[305,306,307,49],2]},{"Or":[308]},{"Opt":36},{"And":[[310,49],null]},{"Or":[311]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[150,[[2,19]]]},{"Call":[151,[[3,316]]]},{"And":[[313,314,315,317],1]},{"Or":[318]},{"Token":92},{"Token":53},{"And":[[321,75],null]},{"Call":[150,[[2,17]]]},{"Call":[152,[[4,323]]]},{"And":[[324],null]},{"Call":[150,[[2,16]]]},{"Call":[151,[[3,326]]]},{"And":[[327],null]},{"Or":[322,325,328]},{"Opt":329},{"And":[[320,330],1]},{"Or":[331]},{"Token":13},{"Token":92},{"Token":58},{"And":[[335],null]},{"Call":[151,[[3,1]]]},{"And":[[337],null]},{"Or":[336,338]},{"And":[[333,334,339],1]},{"Or":[340]},{"Token":35},{"Opt":342},{"Token":17},{"Opt":31},{"Token":23},{"And":[[346,49],null]},{"Or":[347]},{"Opt":348},{"And":[[49,349],null]},{"Or":[350]},{"Opt":37},{"And":[[343,344,345,351,352,23],2]},{"Or":[353]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[145,355,356,357,358,359,360,23],3]},{"Or":[361]},{"Opt":36},{"And":[[145,363],null]},{"Or":[364]},{"Inject":[365,24]},{"And":[[366],null]},{"And":[[28],null]},{"Or":[367,368]},{"WithSkip":[25,369]},{"Rep":370},{"Call":[151,[[3,371]]]},{"And":[[372],null]},{"Or":[373]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[143],null]},{"Token":10},{"And":[[379],null]},{"Token":8},{"And":[[381],null]},{"Token":20},{"And":[[383],null]},{"Token":21},{"And":[[385],null]},{"Token":22},{"And":[[387],null]},{"Token":35},{"And":[[389],null]},{"Token":65},{"And":[[391],null]},{"Token":7},{"And":[[393],null]},{"Token":92},{"Token":82},{"And":[[395,396],null]},{"Or":[397]},{"And":[[398],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[403,49],null]},{"Or":[404]},{"Opt":405},{"Token":58},{"And":[[400,401,402,406,407],1]},{"Or":[408]},{"Token":21},{"And":[[410],null]},{"Token":22},{"And":[[412],null]},{"Or":[411,413]},{"Token":92},{"Token":59},{"Token":53},{"And":[[417,75],null]},{"Or":[418]},{"Opt":419},{"Token":58},{"And":[[414,415,416,49,420,421],1]},{"Or":[422]},{"And":[[147],null]},{"Token":58},{"And":[[148,425],null]},{"Or":[424,426]},{"Rep":30},{"Call":[151,[[3,428]]]},{"And":[[10,429],null]},{"Or":[430]},{"Opt":36},{"And":[[145,432],null]},{"Or":[433]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[435,436]},{"Inject":[434,437]},{"And":[[438],null]},{"Call":[150,[[2,35]]]},{"Call":[150,[[2,32]]]},{"And":[[440,441],null]},{"Or":[442]},{"Call":[153,[[5,443]]]},{"And":[[444],null]},{"Or":[445]},{"Token":92},{"Opt":33},{"And":[[447,448],1]},{"Or":[449]},{"Token":59},{"Token":73},{"And":[[452],null]},"Eof",{"And":[[454],null]},{"Token":61},{"And":[[456],null]},{"Token":39},{"And":[[458],null]},{"Token":36},{"And":[[460],null]},{"Or":[457,459,461]},{"Not":462},{"Not":463},{"And":[[464],null]},{"Or":[453,455,465]},{"And":[[34,466],1]},{"Or":[467]},{"Rep":468},{"And":[[451,469],null]},{"Token":87},{"And":[[471],null]},{"And":[[51],null]},{"And":[[62],null]},{"Or":[472,473,474]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[479],null]},"Eof",{"And":[[481],null]},{"Token":61},{"Not":483},{"Not":484},{"And":[[485],null]},{"Or":[480,482,486]},{"And":[[478,487],1]},{"Or":[488]},{"Rep":489},{"And":[[477,490],null]},{"Or":[491]},{"Opt":492},{"And":[[476,493],1]},{"Or":[494]},{"Token":10},{"Token":6},{"And":[[497],null]},{"Token":19},{"And":[[499],null]},{"Or":[498,500]},{"Call":[152,[[4,501]]]},{"Opt":502},{"And":[[496,503],null]},{"Or":[504]},{"Token":36},{"Token":61},{"And":[[507],null]},"Eof",{"And":[[509],null]},{"Token":39},{"Not":511},{"Not":512},{"And":[[513],null]},{"Or":[508,510,514]},{"And":[[49,33,515],null]},{"Or":[516]},{"Rep":517},{"And":[[506,518],1]},{"Or":[519]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[522],null]},{"Enter":[1,41]},{"And":[[524],null]},{"Token":60},{"And":[[526,45],null]},{"Or":[527]},{"Token":60},{"Opt":529},{"And":[[530,45],null]},{"Or":[531]},{"Token":60},{"And":[[533,45],null]},{"Or":[534]},{"And":[[41,535],null]},{"Or":[536]},{"Token":5},{"And":[[49,538,49],null]},{"Or":[539]},{"Call":[153,[[5,540]]]},{"Token":60},{"And":[[541,542,45],null]},{"Or":[543]},{"Token":92},{"And":[[545],null]},{"Token":18},{"And":[[547],null]},{"Token":19},{"And":[[549],null]},{"Or":[546,548,550]},{"And":[[46],null]},{"IsIn":3},{"And":[[553,47],null]},{"Or":[552,554]},{"Opt":555},{"And":[[551,556],null]},{"Or":[557]},{"IsIn":3},{"And":[[559],null]},{"IsIn":1},{"Token":60},{"And":[[561,562],null]},{"Or":[560,563]},{"Token":87},{"Call":[150,[[2,565]]]},{"Token":92},{"Token":53},{"And":[[567,568],null]},{"Or":[569]},{"Not":570},{"And":[[571,49],null]},{"Or":[572]},{"Call":[150,[[2,573]]]},{"Token":92},{"Token":53},{"And":[[575,576,49],null]},{"Or":[577]},{"Call":[150,[[2,578]]]},{"And":[[566,574,579],null]},{"Or":[580]},{"Call":[153,[[5,581]]]},{"And":[[564,582],null]},{"Or":[583]},{"Call":[150,[[2,49]]]},{"Call":[152,[[4,585]]]},{"Opt":9},{"And":[[586,587],null]},{"Or":[588]},{"Token":5},{"Token":92},{"And":[[590,591],null]},{"Or":[592]},{"Token":73},{"And":[[594,34],null]},{"Or":[595]},{"Rep":596},{"And":[[50,597],null]},{"Or":[598]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[62],null]},{"And":[[39],null]},{"Or":[610]},{"And":[[120,49],null]},{"Or":[612]},{"Token":67},{"Token":21},{"And":[[615],null]},{"Token":27},{"And":[[617],null]},{"Or":[616,618]},{"And":[[614,619,49],null]},{"Or":[620]},{"Token":81},{"And":[[622],null]},{"Or":[623]},{"Token":37},{"Token":38},{"And":[[625,626],null]},{"Or":[627]},{"Opt":57},{"And":[[49,629],null]},{"Or":[630]},{"Call":[152,[[4,631]]]},{"And":[[632],null]},{"Or":[633]},{"Token":61},{"Call":[150,[[2,49]]]},{"And":[[635,636],null]},{"Or":[637]},{"Token":82},{"And":[[639],null]},{"Or":[640]},{"Token":58},{"And":[[642,75],null]},{"Or":[643]},{"Opt":644},{"And":[[49,645],null]},{"Or":[646]},{"Call":[154,[[6,647]]]},{"And":[[648],null]},{"Or":[649]},{"Opt":10},{"Token":8},{"Call":[150,[[2,61]]]},{"Call":[152,[[4,653]]]},{"Opt":9},{"And":[[651,652,654,655],2]},{"Or":[656]},{"Token":59},{"And":[[63,658],null]},{"Or":[659]},{"Opt":660},{"And":[[661,49],null]},{"Or":[662]},{"Token":23},{"And":[[664,31,49],1]},{"Or":[665]},{"And":[[64],null]},{"And":[[65],null]},{"And":[[69],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[74],null]},{"Token":81},{"And":[[674],null]},{"Or":[675]},{"And":[[66],null]},{"And":[[67],null]},{"Or":[677,678]},{"Opt":679},{"And":[[40,680],null]},{"Or":[681]},{"Call":[150,[[2,63]]]},{"Token":63},{"Token":61},{"Opt":685},{"And":[[684,686],null]},{"Or":[687]},{"Opt":688},{"And":[[683,689],null]},{"Or":[690]},{"Call":[152,[[4,691]]]},{"And":[[692],null]},{"Or":[693]},{"Call":[150,[[2,68]]]},{"Token":63},{"Token":61},{"Opt":697},{"And":[[696,698],null]},{"Or":[699]},{"Opt":700},{"And":[[695,701],null]},{"Or":[702]},{"Call":[151,[[3,703]]]},{"And":[[704],null]},{"Or":[705]},{"Token":59},{"Not":707},{"And":[[69,708],null]},{"Token":92},{"Token":59},{"And":[[710,711,63],2]},{"Or":[709,712]},{"Token":28},{"Opt":714},{"Token":27},{"Opt":716},{"Token":92},{"And":[[715,717,718],null]},{"Or":[719]},{"And":[[79],null]},{"Or":[721]},{"Token":37},{"Token":38},{"And":[[723,724],null]},{"Or":[725]},{"Opt":73},{"And":[[63,727],null]},{"Or":[728]},{"Call":[152,[[4,729]]]},{"And":[[730],null]},{"Or":[731]},{"Token":61},{"Call":[150,[[2,63]]]},{"And":[[733,734],null]},{"Or":[735]},{"Token":77},{"Token":27},{"Opt":738},{"And":[[737,739,63],null]},{"Or":[740]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":744},{"And":[[742,743,745,113],null]},{"Or":[746]},{"IsIn":2},{"Not":77},{"And":[[748,749],null]},{"IsIn":2},{"Not":751},{"And":[[752],null]},{"Or":[750,753]},{"And":[[754,113],null]},{"Or":[755]},{"Token":62},{"Token":92},{"And":[[758],null]},{"Token":89},{"And":[[760],null]},{"Or":[759,761]},{"And":[[757,762],null]},{"Or":[763]},{"Call":[154,[[6,75]]]},{"Token":83},{"Token":5},{"And":[[767,49],null]},{"Or":[768]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[773],null]},{"Token":69},{"And":[[775],null]},{"Token":71},{"And":[[777],null]},{"Or":[774,776,778]},{"Call":[127,[[1,779]]]},{"Token":73},{"And":[[781],null]},{"Token":75},{"And":[[783],null]},{"Or":[782,784]},{"Call":[127,[[1,785]]]},{"ContextualToken":[45,"<<"]},{"And":[[787],null]},{"ContextualToken":[47,">>"]},{"And":[[789],null]},{"Or":[788,790]},{"Call":[127,[[1,791]]]},{"Token":77},{"Token":77},{"Not":794},{"And":[[793,795],null]},{"Or":[796]},{"Call":[127,[[1,797]]]},{"Token":84},{"Call":[127,[[1,799]]]},{"Token":79},{"Token":79},{"Not":802},{"And":[[801,803],null]},{"Or":[804]},{"Call":[127,[[1,805]]]},{"Call":[127,[[1,132]]]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,808]]]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,810]]]},{"Call":[127,[[1,140]]]},{"Token":53},{"And":[[813],null]},{"Token":74},{"And":[[815],null]},{"Token":76},{"And":[[817],null]},{"Token":68},{"And":[[819],null]},{"Token":70},{"And":[[821],null]},{"Token":72},{"And":[[823],null]},{"Token":78},{"And":[[825],null]},{"Token":80},{"And":[[827],null]},{"Token":85},{"And":[[829],null]},{"ContextualToken":[48,">>="]},{"And":[[831],null]},{"ContextualToken":[46,"<<="]},{"And":[[833],null]},{"Or":[814,816,818,820,822,824,826,828,830,832,834]},{"Call":[127,[[1,835]]]},{"And":[[79],null]},{"Token":92},{"And":[[838],null]},{"Token":87},{"And":[[840],null]},{"Token":18},{"And":[[842],null]},{"Token":19},{"And":[[844],null]},{"Token":41},{"And":[[846],null]},{"Token":60},{"And":[[848],null]},{"Token":37},{"And":[[850],null]},{"Token":43},{"And":[[852],null]},{"Token":79},{"And":[[854],null]},{"Token":31},{"And":[[856],null]},{"Token":39},{"And":[[858],null]},{"Token":14},{"And":[[860],null]},{"Token":25},{"And":[[862],null]},{"Token":24},{"And":[[864],null]},{"Token":23},{"And":[[866],null]},{"Token":30},{"And":[[868],null]},{"Token":26},{"And":[[870],null]},{"Token":32},{"And":[[872],null]},{"Token":33},{"And":[[874],null]},{"Token":77},{"And":[[876],null]},{"Token":67},{"And":[[878],null]},{"Token":75},{"And":[[880],null]},{"Token":82},{"And":[[882],null]},{"Token":63},{"And":[[884],null]},{"Token":64},{"And":[[886],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[888],null]},{"Var":0},{"Exit":[2,890]},{"Exit":[0,891]},{"And":[[892],null]},{"Token":89},{"And":[[894],null]},{"Token":90},{"And":[[896],null]},{"Token":91},{"And":[[898],null]},{"Token":86},{"And":[[900],null]},{"Token":88},{"And":[[902],null]},{"Or":[895,897,899,901,903]},{"Token":92},{"Token":82},{"And":[[905,906],null]},{"Or":[907]},{"Not":908},{"Opt":81},{"And":[[909,40,910],null]},{"Or":[911]},{"IsIn":0},{"Not":913},{"Call":[150,[[2,82]]]},{"Token":63},{"Call":[78,[[0,75]]]},{"And":[[916,917],null]},{"Or":[918]},{"Opt":919},{"And":[[915,920],null]},{"Or":[921]},{"Call":[151,[[3,922]]]},{"And":[[914,923],null]},{"Or":[924]},{"Token":92},{"Token":59},{"And":[[927,75],null]},{"Or":[928]},{"Opt":929},{"And":[[926,930],1]},{"Or":[931]},{"Token":37},{"Token":38},{"And":[[933,934],null]},{"Or":[935]},{"Call":[78,[[0,75]]]},{"Opt":85},{"And":[[937,938],null]},{"Or":[939]},{"Call":[152,[[4,940]]]},{"And":[[941],null]},{"Or":[942]},{"Token":61},{"Call":[78,[[0,75]]]},{"Call":[150,[[2,945]]]},{"And":[[944,946],null]},{"Or":[947]},{"Token":58},{"And":[[949,75],null]},{"Token":61},{"Call":[150,[[2,75]]]},{"And":[[951,952],null]},{"Or":[950,953]},{"Opt":954},{"And":[[75,955],null]},{"Or":[956]},{"Call":[78,[[0,957]]]},{"Call":[154,[[6,958]]]},{"And":[[959],null]},{"Or":[960]},{"Token":26},{"Opt":962},{"Token":79},{"Rep":88},{"Token":79},{"Token":51},{"And":[[967,49,91],null]},{"Call":[78,[[0,75]]]},{"And":[[969],null]},{"Or":[968,970]},{"And":[[963,964,965,966,971],null]},{"Or":[972]},{"Token":61},{"And":[[974],null]},{"Token":79},{"Not":976},{"Not":977},{"And":[[978],null]},{"Or":[975,979]},{"And":[[13,980],1]},{"Token":31},{"Opt":75},{"And":[[982,983],null]},{"Or":[984]},{"Token":33},{"And":[[986],null]},{"Token":32},{"And":[[988],null]},{"Or":[987,989]},{"Token":87},{"Opt":991},{"And":[[990,992],null]},{"Or":[993]},{"Token":35},{"Opt":995},{"WithSkip":[93,92]},{"Rep":997},{"Call":[151,[[3,998]]]},{"And":[[996,999],null]},{"Or":[1000]},{"Call":[78,[[0,1001]]]},{"And":[[1002],null]},{"Or":[1003]},{"And":[[94],null]},{"And":[[96],null]},{"And":[[3],null]},{"And":[[97],null]},{"Token":9},{"And":[[1009],null]},{"Token":58},{"And":[[1011],null]},{"And":[[2],null]},{"And":[[76],null]},{"Token":9},{"Opt":95},{"Token":53},{"And":[[1017,75],1]},{"Or":[1018]},{"Opt":1019},{"Token":58},{"And":[[1015,63,1016,1020,1021],1]},{"Or":[1022]},{"Token":59},{"And":[[1024,49],null]},{"Or":[1025]},{"Token":58},{"And":[[1027],null]},{"Or":[1028]},{"And":[[77],null]},"Eof",{"And":[[1031],null]},{"Token":58},{"And":[[1033],null]},{"Or":[1030,1032,1034]},{"And":[[75,1035],1]},{"Or":[1036]},{"Enter":[2,1037]},{"And":[[1038],null]},{"Or":[1039]},{"Token":14},{"Token":15},{"And":[[91],null]},{"And":[[98],null]},{"Or":[1043,1044]},{"And":[[1042,1045],null]},{"Or":[1046]},{"Opt":1047},{"And":[[1041,100,91,1048],1]},{"Or":[1049]},{"Opt":104},{"Token":25},{"And":[[1051,1052,100,91],2]},{"Or":[1053]},{"Token":9},{"Token":53},{"And":[[1055,63,1056],1]},{"Or":[1057]},{"Opt":1058},{"And":[[1059,101],1]},{"Enter":[0,75]},{"And":[[1061],null]},{"Opt":104},{"Token":24},{"And":[[1063,1064,91],2]},{"Or":[1065]},{"Opt":104},{"Token":23},{"Token":34},{"And":[[1067,1068,63,1069,101,91],2]},{"Or":[1070]},{"Token":87},{"Token":59},{"And":[[1072,1073],null]},{"Token":30},{"Rep":106},{"Call":[151,[[3,1076]]]},{"And":[[1075,101,1077],1]},{"Or":[1078]},{"Token":52},{"Enter":[2,75]},{"Token":61},{"And":[[1082],null]},"Eof",{"And":[[1084],null]},{"And":[[77],null]},{"Or":[1083,1085,1086]},{"And":[[107,1080,1081,1087],1]},{"Or":[1088]},{"Token":79},{"And":[[1090,63],null]},{"Or":[1091]},{"Rep":1092},{"Opt":108},{"And":[[63,1093,1094],null]},{"Token":14},{"And":[[1096,75],null]},{"Or":[1097]},{"And":[[147],null]},{"Or":[1099]},{"And":[[148],null]},{"Or":[1101]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1105},{"And":[[1103,1104,1106,113],null]},{"Or":[1107]},{"And":[[75,1108],null]},{"Or":[1109]},{"IsIn":2},{"Not":77},{"And":[[1111,1112],null]},{"IsIn":2},{"Not":1114},{"And":[[1115],null]},{"Or":[1113,1116]},{"And":[[1117,113],null]},{"Or":[1118]},{"And":[[75,1119],null]},{"Or":[1120]},{"Call":[150,[[2,114]]]},{"Call":[152,[[4,1122]]]},{"Call":[78,[[0,1123]]]},{"And":[[1124],null]},{"And":[[75],null]},{"Or":[1126]},{"Token":62},{"Token":92},{"And":[[1129],null]},{"Token":89},{"And":[[1131],null]},{"Or":[1130,1132]},{"And":[[1128,1133],null]},{"Or":[1134]},{"And":[[75,1135],null]},{"Or":[1136]},{"Call":[154,[[6,75]]]},{"And":[[75,1138],null]},{"Or":[1139]},{"Token":83},{"And":[[75,1141],null]},{"Or":[1142]},{"Token":5},{"And":[[1144,49],null]},{"Or":[1145]},{"And":[[75,1146],null]},{"Or":[1147]},{"And":[[120,75],null]},{"Or":[1149]},{"Token":77},{"Token":87},{"Opt":1152},{"Token":27},{"Opt":1154},{"And":[[1151,1153,1155],null]},{"Token":67},{"And":[[1157,75],null]},{"Or":[1158]},{"Token":75},{"And":[[1160,75],null]},{"Or":[1161]},{"Token":82},{"And":[[1163,75],null]},{"Or":[1164]},{"Token":67},{"And":[[1166],null]},{"Token":69},{"And":[[1168],null]},{"Token":71},{"And":[[1170],null]},{"Or":[1167,1169,1171]},{"Call":[127,[[1,1172]]]},{"And":[[75,1173,75],null]},{"Or":[1174]},{"Token":73},{"And":[[1176],null]},{"Token":75},{"And":[[1178],null]},{"Or":[1177,1179]},{"Call":[127,[[1,1180]]]},{"And":[[75,1181,75],null]},{"Or":[1182]},{"ContextualToken":[45,"<<"]},{"And":[[1184],null]},{"ContextualToken":[47,">>"]},{"And":[[1186],null]},{"Or":[1185,1187]},{"Call":[127,[[1,1188]]]},{"And":[[75,1189,75],null]},{"Or":[1190]},{"IsIn":2},{"Not":77},{"Var":1},{"And":[[1192,1193,1194],null]},{"IsIn":2},{"Not":1196},{"Var":1},{"And":[[1197,1198],null]},{"Token":77},{"Token":77},{"Not":1201},{"And":[[1200,1202],null]},{"Or":[1203]},{"Call":[127,[[1,1204]]]},{"And":[[75,1205,75],null]},{"Or":[1206]},{"Token":84},{"Call":[127,[[1,1208]]]},{"And":[[75,1209,75],null]},{"Or":[1210]},{"Token":79},{"Token":79},{"Not":1213},{"And":[[1212,1214],null]},{"Or":[1215]},{"Call":[127,[[1,1216]]]},{"And":[[75,1217,75],null]},{"Or":[1218]},{"Call":[127,[[1,132]]]},{"And":[[75,1220,75],null]},{"Or":[1221]},{"Token":54},{"And":[[1223],null]},{"Token":55},{"And":[[1225],null]},{"Token":41},{"Token":57},{"Not":1228},{"And":[[1227,1229],null]},{"Token":42},{"Token":56},{"Not":1232},{"And":[[1231,1233],null]},{"Token":57},{"And":[[1235],null]},{"Token":56},{"And":[[1237],null]},{"ContextualToken":[49,"&&"]},{"Call":[127,[[1,1239]]]},{"And":[[75,1240,75],null]},{"Or":[1241]},{"ContextualToken":[50,"||"]},{"Call":[127,[[1,1243]]]},{"And":[[75,1244,75],null]},{"Or":[1245]},{"Call":[127,[[1,140]]]},{"And":[[75,1247,75],null]},{"Or":[1248]},{"And":[[140,75],null]},{"Or":[1250]},{"And":[[75,139],null]},{"Or":[1252]},{"Token":63},{"Not":76},{"And":[[1254,1255],null]},{"Or":[1256]},{"Token":63},{"And":[[1258],null]},{"Token":64},{"And":[[1260],null]},{"Not":76},{"Not":1262},{"Token":39},{"IsIn":0},{"And":[[1264,1265],null]},{"Or":[1266]},{"Not":1267},{"And":[[139,1263,1268],null]},{"Token":53},{"And":[[1270],null]},{"Token":74},{"And":[[1272],null]},{"Token":76},{"And":[[1274],null]},{"Token":68},{"And":[[1276],null]},{"Token":70},{"And":[[1278],null]},{"Token":72},{"And":[[1280],null]},{"Token":78},{"And":[[1282],null]},{"Token":80},{"And":[[1284],null]},{"Token":85},{"And":[[1286],null]},{"ContextualToken":[48,">>="]},{"And":[[1288],null]},{"ContextualToken":[46,"<<="]},{"And":[[1290],null]},{"Or":[1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291]},{"Call":[127,[[1,1292]]]},{"And":[[75,1293,75],null]},{"Or":[1294]},{"Token":65},{"And":[[1296,144],null]},{"Or":[1297]},{"Token":65},{"Token":82},{"And":[[1299,1300,144],null]},{"Or":[1301]},{"Call":[150,[[2,146]]]},{"Call":[154,[[6,1303]]]},{"And":[[1304],null]},{"Rep":142},{"And":[[1306],null]},{"Token":92},{"Token":53},{"And":[[1309,75],null]},{"Call":[150,[[2,146]]]},{"Call":[152,[[4,1311]]]},{"And":[[1312],null]},{"Or":[1310,1313]},{"Opt":1314},{"And":[[1308,1315],1]},{"Or":[1316]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1320},{"Rep":149},{"Call":[151,[[3,1322]]]},{"And":[[1318,1319,1321,1323],null]},{"Or":[1324]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1328},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1330,1331,1332],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1334,1335,1336],null]},{"Or":[1333,1337]},{"And":[[1326,1327,1329,1338],null]},{"Or":[1339]},{"Token":37},{"And":[[1341],null]},{"Token":38},{"And":[[1343],null]},{"Token":39},{"And":[[1345],null]},{"Token":40},{"And":[[1347],null]},{"Token":43},{"And":[[1349],null]},{"Token":44},{"And":[[1351],null]},{"Or":[1342,1344,1346,1348,1350,1352]},{"Not":1353},"Any",{"And":[[1354,1355],null]},{"Token":37},{"Rep":149},{"Token":38},{"And":[[1357,1358,1359],null]},{"Token":43},{"Rep":149},{"Token":44},{"And":[[1361,1362,1363],null]},{"Token":39},{"Rep":149},{"Token":40},{"And":[[1365,1366,1367],null]},{"Or":[1356,1360,1364,1368]},{"Var":2},"Eof",{"And":[[1371],null]},{"Token":61},{"And":[[1373],null]},{"Or":[1372,1374]},{"And":[[1370,1375],1]},{"Or":[1376]},{"Rep":1377},{"And":[[1378],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[155,[[7,1380],[8,1381],[9,1382]]]},{"And":[[1383],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[155,[[7,1385],[8,1386],[9,1387]]]},{"And":[[1388],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[155,[[7,1390],[8,1391],[9,1392]]]},{"And":[[1393],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[155,[[7,1395],[8,1396],[9,1397]]]},{"And":[[1398],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[156,[[10,1401],[11,1402]]]},{"Var":9},{"Layer":[1403,1404]},{"Var":8},{"And":[[1400,1405,1406],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[156,[[10,1409],[11,1410]]]},{"Var":11},{"And":[[1408,1411,1412],1]},{"Var":11},{"Not":1414},"Any",{"And":[[1415,1416],null]},{"Or":[1417]},{"And":[[1418],null]},{"Or":[1413,1419]},{"Rep":1420},{"And":[[1421],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":93,"body":159,"replaceable":false}},{"Or":[162]},{"Or":[164,166,168,170,172,174,176,177]},{"Cached":194},{"Pub":{"ty":94,"body":210,"replaceable":false}},{"Pub":{"ty":95,"body":216,"replaceable":false}},{"Pub":{"ty":96,"body":222,"replaceable":false}},{"Pub":{"ty":97,"body":229,"replaceable":false}},{"Pub":{"ty":98,"body":245,"replaceable":false}},{"Or":[247]},{"Pub":{"ty":99,"body":252,"replaceable":false}},{"Or":[258]},{"Pub":{"ty":100,"body":261,"replaceable":false}},{"Pub":{"ty":101,"body":267,"replaceable":false}},{"Pub":{"ty":102,"body":286,"replaceable":false}},{"Pub":{"ty":103,"body":305,"replaceable":false}},{"Pub":{"ty":104,"body":310,"replaceable":false}},{"Pub":{"ty":105,"body":313,"replaceable":false}},{"Pub":{"ty":106,"body":320,"replaceable":false}},{"Pub":{"ty":107,"body":333,"replaceable":false}},{"Pub":{"ty":108,"body":342,"replaceable":false}},{"Pub":{"ty":109,"body":355,"replaceable":false}},{"Pub":{"ty":110,"body":363,"replaceable":false}},{"Pub":{"ty":111,"body":375,"replaceable":false}},{"Or":[376,377,378,379]},{"Or":[381,383,385,387,389,391,393,395,400]},{"Pub":{"ty":112,"body":410,"replaceable":false}},{"Pub":{"ty":113,"body":424,"replaceable":false}},{"Pub":{"ty":114,"body":428,"replaceable":false}},{"Pub":{"ty":115,"body":432,"replaceable":false}},{"Or":[440]},{"Pub":{"ty":116,"body":447,"replaceable":false}},{"Pub":{"ty":117,"body":451,"replaceable":false}},{"Or":[471]},{"Pub":{"ty":118,"body":476,"replaceable":false}},{"Pub":{"ty":119,"body":496,"replaceable":false}},{"Pub":{"ty":120,"body":506,"replaceable":false}},{"Pub":{"ty":121,"body":521,"replaceable":false}},{"Or":[522]},{"Or":[524]},{"Or":[526]},{"Pratt":{"atoms":[42,44],"prefixes":[],"infixes":[{"ty":122,"op":529,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":122,"body":533,"replaceable":false}},{"Pub":{"ty":122,"body":538,"replaceable":false}},{"Pub":{"ty":123,"body":545,"replaceable":false}},{"Pub":{"ty":124,"body":559,"replaceable":false}},{"Pub":{"ty":125,"body":585,"replaceable":false}},{"Pub":{"ty":126,"body":590,"replaceable":false}},{"Pub":{"ty":127,"body":594,"replaceable":false}},{"Pub":{"ty":128,"body":600,"replaceable":false}},{"Or":[601,602,603,604,605,606,607,608,609,610]},{"Pub":{"ty":129,"body":612,"replaceable":false}},{"Pub":{"ty":130,"body":614,"replaceable":false}},{"Pub":{"ty":131,"body":622,"replaceable":false}},{"Pub":{"ty":132,"body":625,"replaceable":false}},{"Pub":{"ty":133,"body":629,"replaceable":false}},{"Pub":{"ty":134,"body":635,"replaceable":true}},{"PubReplace":{"ty":135,"body":639}},{"Pub":{"ty":136,"body":642,"replaceable":false}},{"Pub":{"ty":137,"body":651,"replaceable":false}},{"Pub":{"ty":138,"body":658,"replaceable":false}},{"Pub":{"ty":100,"body":666,"replaceable":false}},{"Or":[681]},{"Pub":{"ty":139,"body":684,"replaceable":false}},{"Or":[685,686,687,688,689,690,691]},{"Pub":{"ty":140,"body":694,"replaceable":false}},{"Pub":{"ty":141,"body":700,"replaceable":true}},{"PubReplace":{"ty":142,"body":712}},{"PubReplace":{"ty":143,"body":724}},{"Pub":{"ty":144,"body":731,"replaceable":false}},{"Pub":{"ty":145,"body":738,"replaceable":false}},{"Pub":{"ty":146,"body":740,"replaceable":false}},{"Pub":{"ty":147,"body":744,"replaceable":false}},{"Pub":{"ty":148,"body":750,"replaceable":true}},{"PubReplace":{"ty":149,"body":754}},{"Pub":{"ty":150,"body":759,"replaceable":false}},{"Pratt":{"atoms":[80,81,84,85,87,88,90,91,92,99,100,103,104,106,110,111,139],"prefixes":[{"ty":184,"op":121,"priority":999},{"ty":185,"op":788,"priority":999},{"ty":186,"op":789,"priority":999},{"ty":187,"op":790,"priority":999},{"ty":197,"op":141,"priority":2}],"infixes":[{"ty":177,"op":765,"priority":999,"has_rhs":false},{"ty":178,"op":774,"priority":999,"has_rhs":false},{"ty":180,"op":782,"priority":999,"has_rhs":false},{"ty":181,"op":783,"priority":999,"has_rhs":false},{"ty":182,"op":784,"priority":999,"has_rhs":false},{"ty":183,"op":787,"priority":12,"has_rhs":false},{"ty":188,"op":798,"priority":11,"has_rhs":true},{"ty":189,"op":804,"priority":10,"has_rhs":true},{"ty":190,"op":810,"priority":9,"has_rhs":true},{"ty":191,"op":816,"priority":8,"has_rhs":true},{"ty":192,"op":818,"priority":7,"has_rhs":true},{"ty":193,"op":824,"priority":6,"has_rhs":true},{"ty":194,"op":825,"priority":5,"has_rhs":true},{"ty":195,"op":827,"priority":4,"has_rhs":true},{"ty":196,"op":829,"priority":3,"has_rhs":true},{"ty":197,"op":830,"priority":2,"has_rhs":true},{"ty":197,"op":140,"priority":2,"has_rhs":false},{"ty":198,"op":854,"priority":1,"has_rhs":true}]}},{"Or":[855,857,859,861,863,865,867,869,871,873,875,877,879,881,883,885,887,889,891,893,895,897,899,901,903,905]},{"Or":[907]},{"Or":[911]},{"Pub":{"ty":152,"body":922,"replaceable":false}},{"Pub":{"ty":153,"body":930,"replaceable":true}},{"PubReplace":{"ty":154,"body":943}},{"Pub":{"ty":155,"body":950,"replaceable":false}},{"Pub":{"ty":156,"body":954,"replaceable":false}},{"Pub":{"ty":157,"body":961,"replaceable":true}},{"PubReplace":{"ty":158,"body":966}},{"Pub":{"ty":159,"body":979,"replaceable":false}},{"Pub":{"ty":160,"body":991,"replaceable":false}},{"Or":[999]},{"Pub":{"ty":161,"body":1003,"replaceable":false}},{"Pub":{"ty":162,"body":1012,"replaceable":false}},{"Pub":{"ty":163,"body":1022,"replaceable":false}},{"Or":[1023,1024,1025,1026]},{"Or":[1028,1030,1031,1032]},{"Pub":{"ty":164,"body":1041,"replaceable":false}},{"Pub":{"ty":165,"body":1044,"replaceable":false}},{"Pub":{"ty":166,"body":1047,"replaceable":false}},{"Pub":{"ty":167,"body":1058,"replaceable":false}},{"Pub":{"ty":168,"body":1068,"replaceable":false}},{"Pub":{"ty":169,"body":1072,"replaceable":false}},{"Or":[1078]},{"Or":[1080]},{"Pub":{"ty":170,"body":1084,"replaceable":false}},{"Pub":{"ty":171,"body":1089,"replaceable":false}},{"Or":[1092]},{"Pub":{"ty":172,"body":1097,"replaceable":false}},{"Pub":{"ty":173,"body":1107,"replaceable":false}},{"Or":[1113]},{"Pub":{"ty":174,"body":1116,"replaceable":false}},{"Pub":{"ty":175,"body":1118,"replaceable":false}},{"Pub":{"ty":176,"body":1120,"replaceable":false}},{"Pub":{"ty":177,"body":1128,"replaceable":false}},{"Pub":{"ty":178,"body":1139,"replaceable":false}},{"Or":[1143]},{"Pub":{"ty":179,"body":1145,"replaceable":false}},{"Pub":{"ty":180,"body":1155,"replaceable":false}},{"Pub":{"ty":181,"body":1158,"replaceable":false}},{"Pub":{"ty":182,"body":1161,"replaceable":false}},{"Pub":{"ty":183,"body":1166,"replaceable":false}},{"Pub":{"ty":184,"body":1168,"replaceable":false}},{"Or":[1174]},{"Pub":{"ty":185,"body":1177,"replaceable":false}},{"Pub":{"ty":186,"body":1180,"replaceable":false}},{"Pub":{"ty":187,"body":1183,"replaceable":false}},{"Pub":{"ty":188,"body":1193,"replaceable":false}},{"Pub":{"ty":189,"body":1201,"replaceable":false}},{"Pub":{"ty":190,"body":1209,"replaceable":false}},{"Or":[1213,1217]},{"Pub":{"ty":191,"body":1225,"replaceable":false}},{"Pub":{"ty":192,"body":1229,"replaceable":false}},{"Pub":{"ty":193,"body":1237,"replaceable":false}},{"Pub":{"ty":194,"body":1240,"replaceable":false}},{"Or":[1242,1244,1248,1252,1254,1256]},{"Pub":{"ty":195,"body":1260,"replaceable":false}},{"Pub":{"ty":196,"body":1264,"replaceable":false}},{"Pub":{"ty":197,"body":1267,"replaceable":false}},{"Pub":{"ty":197,"body":1269,"replaceable":false}},{"Pub":{"ty":197,"body":1271,"replaceable":false}},{"Pub":{"ty":197,"body":1275,"replaceable":false}},{"Or":[1277,1279]},{"Or":[1287]},{"Pub":{"ty":198,"body":1313,"replaceable":false}},{"Pub":{"ty":199,"body":1316,"replaceable":false}},{"Pub":{"ty":200,"body":1320,"replaceable":false}},{"Or":[1323]},{"Or":[1325]},{"Pub":{"ty":201,"body":1335,"replaceable":false}},{"Pub":{"ty":202,"body":1343,"replaceable":false}},{"Pub":{"ty":203,"body":1358,"replaceable":false}},{"Pub":{"ty":204,"body":1387,"replaceable":false}},{"Or":[1397]},{"Or":[1402]},{"Or":[1407]},{"Or":[1412]},{"Or":[1417]},{"Or":[1425]},{"Or":[1440]},{"And":[[1],null]},{"Or":[158]},{"WithSkip":[2,3]},{"Rep":160},{"And":[[161],null]},{"Token":11},{"And":[[163],null]},{"ContextualToken":[4,"union"]},{"And":[[165],null]},{"Token":16},{"And":[[167],null]},{"Token":12},{"And":[[169],null]},{"Token":13},{"And":[[171],null]},{"Token":17},{"And":[[173],null]},{"Token":29},{"And":[[175],null]},{"And":[[25],null]},{"Opt":36},{"And":[[146,178],null]},{"Or":[179]},{"And":[[24],null]},{"And":[[4],null]},{"And":[[7],null]},{"And":[[15],null]},{"And":[[18],null]},{"And":[[20],null]},{"And":[[21],null]},{"And":[[22],null]},{"And":[[29],null]},{"Or":[181,182,183,184,185,186,187,188,189]},{"Inject":[180,190]},{"And":[[191],null]},{"And":[[28],null]},{"Or":[192,193]},{"Token":12},{"And":[[48],null]},{"Token":60},{"And":[[197,5],null]},{"Or":[198]},{"Opt":199},{"And":[[200],null]},{"Or":[196,201]},{"And":[[38,202],null]},{"Token":60},{"Opt":204},{"And":[[205,5],null]},{"Or":[203,206]},{"Token":58},{"And":[[195,207,208],1]},{"Or":[209]},{"Token":67},{"And":[[211],null]},{"Call":[151,[[2,6]]]},{"Call":[152,[[3,213]]]},{"And":[[214],null]},{"Or":[212,215]},{"Token":18},{"And":[[217],null]},{"Token":92},{"Opt":48},{"And":[[219,220],1]},{"Or":[218,221]},{"Token":7},{"Token":6},{"Token":92},{"Opt":48},{"Token":58},{"And":[[223,224,225,226,227],2]},{"Or":[228]},{"Token":21},{"Opt":230},{"Token":35},{"Opt":232},{"Opt":10},{"Token":8},{"Token":92},{"Opt":31},{"Opt":9},{"Opt":37},{"And":[[92],null]},{"Token":58},{"And":[[241],null]},{"Or":[240,242]},{"And":[[231,233,234,235,236,237,11,238,239,243],4]},{"Or":[244]},{"Token":51},{"And":[[246,49],null]},{"Token":7},{"Token":90},{"Opt":249},{"And":[[248,250],null]},{"Or":[251]},{"Opt":14},{"Call":[151,[[2,12]]]},{"And":[[253,254],null]},{"Or":[255]},{"Call":[153,[[4,256]]]},{"And":[[257],null]},{"Token":59},{"And":[[64,259,49],1]},{"Or":[260]},{"Token":59},{"And":[[262,49],null]},{"Or":[263]},{"Opt":264},{"And":[[64,265],null]},{"Or":[266]},{"And":[[121],null]},{"Token":27},{"And":[[269],null]},{"Or":[268,270]},{"Opt":271},{"Token":18},{"Token":60},{"Not":274},{"Token":59},{"And":[[276,49],null]},{"Or":[277]},{"Opt":278},{"Token":61},{"And":[[280],null]},"Eof",{"And":[[282],null]},{"Or":[281,283]},{"And":[[272,273,275,279,284],3]},{"Or":[285]},{"Token":11},{"And":[[287],null]},{"ContextualToken":[4,"union"]},{"And":[[289],null]},{"Or":[288,290]},{"Token":92},{"Opt":31},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,294]]]},{"And":[[295],null]},{"Token":58},{"And":[[297],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,299]]]},{"Token":58},{"And":[[300,301],null]},{"Or":[296,298,302]},{"And":[[291,292,293,303],1]},{"Or":[304]},{"Opt":36},{"Token":92},{"Token":59},{"And":[[306,307,308,49],2]},{"Or":[309]},{"Opt":36},{"And":[[311,49],null]},{"Or":[312]},{"Token":16},{"Token":92},{"Opt":31},{"Call":[151,[[2,19]]]},{"Call":[152,[[3,317]]]},{"And":[[314,315,316,318],1]},{"Or":[319]},{"Token":92},{"Token":53},{"And":[[322,76],null]},{"Call":[151,[[2,17]]]},{"Call":[153,[[4,324]]]},{"And":[[325],null]},{"Call":[151,[[2,16]]]},{"Call":[152,[[3,327]]]},{"And":[[328],null]},{"Or":[323,326,329]},{"Opt":330},{"And":[[321,331],1]},{"Or":[332]},{"Token":13},{"Token":92},{"Token":58},{"And":[[336],null]},{"Call":[152,[[3,1]]]},{"And":[[338],null]},{"Or":[337,339]},{"And":[[334,335,340],1]},{"Or":[341]},{"Token":35},{"Opt":343},{"Token":17},{"Opt":31},{"Token":23},{"And":[[347,49],null]},{"Or":[348]},{"Opt":349},{"And":[[49,350],null]},{"Or":[351]},{"Opt":37},{"And":[[344,345,346,352,353,23],2]},{"Or":[354]},{"Opt":36},{"Token":29},{"Token":92},{"Opt":31},{"Opt":33},{"Opt":37},{"And":[[146,356,357,358,359,360,361,23],3]},{"Or":[362]},{"Opt":36},{"And":[[146,364],null]},{"Or":[365]},{"Inject":[366,24]},{"And":[[367],null]},{"And":[[28],null]},{"Or":[368,369]},{"WithSkip":[25,370]},{"Rep":371},{"Call":[152,[[3,372]]]},{"And":[[373],null]},{"Or":[374]},{"And":[[8],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[144],null]},{"Token":10},{"And":[[380],null]},{"Token":8},{"And":[[382],null]},{"Token":20},{"And":[[384],null]},{"Token":21},{"And":[[386],null]},{"Token":22},{"And":[[388],null]},{"Token":35},{"And":[[390],null]},{"Token":65},{"And":[[392],null]},{"Token":7},{"And":[[394],null]},{"Token":92},{"Token":82},{"And":[[396,397],null]},{"Or":[398]},{"And":[[399],null]},{"Token":20},{"Token":92},{"Opt":31},{"Token":53},{"And":[[404,49],null]},{"Or":[405]},{"Opt":406},{"Token":58},{"And":[[401,402,403,407,408],1]},{"Or":[409]},{"Token":21},{"And":[[411],null]},{"Token":22},{"And":[[413],null]},{"Or":[412,414]},{"Token":92},{"Token":59},{"Token":53},{"And":[[418,76],null]},{"Or":[419]},{"Opt":420},{"Token":58},{"And":[[415,416,417,49,421,422],1]},{"Or":[423]},{"And":[[148],null]},{"Token":58},{"And":[[149,426],null]},{"Or":[425,427]},{"Rep":30},{"Call":[152,[[3,429]]]},{"And":[[10,430],null]},{"Or":[431]},{"Opt":36},{"And":[[146,433],null]},{"Or":[434]},{"And":[[8],null]},{"And":[[27],null]},{"Or":[436,437]},{"Inject":[435,438]},{"And":[[439],null]},{"Call":[151,[[2,35]]]},{"Call":[151,[[2,32]]]},{"And":[[441,442],null]},{"Or":[443]},{"Call":[154,[[5,444]]]},{"And":[[445],null]},{"Or":[446]},{"Token":92},{"Opt":33},{"And":[[448,449],1]},{"Or":[450]},{"Token":59},{"Token":73},{"And":[[453],null]},"Eof",{"And":[[455],null]},{"Token":61},{"And":[[457],null]},{"Token":39},{"And":[[459],null]},{"Token":36},{"And":[[461],null]},{"Or":[458,460,462]},{"Not":463},{"Not":464},{"And":[[465],null]},{"Or":[454,456,466]},{"And":[[34,467],1]},{"Or":[468]},{"Rep":469},{"And":[[452,470],null]},{"Token":87},{"And":[[472],null]},{"And":[[51],null]},{"And":[[63],null]},{"Or":[473,474,475]},{"Token":87},{"Token":59},{"Token":87},{"Token":73},{"And":[[480],null]},"Eof",{"And":[[482],null]},{"Token":61},{"Not":484},{"Not":485},{"And":[[486],null]},{"Or":[481,483,487]},{"And":[[479,488],1]},{"Or":[489]},{"Rep":490},{"And":[[478,491],null]},{"Or":[492]},{"Opt":493},{"And":[[477,494],1]},{"Or":[495]},{"Token":10},{"Token":6},{"And":[[498],null]},{"Token":19},{"And":[[500],null]},{"Or":[499,501]},{"Call":[153,[[4,502]]]},{"Opt":503},{"And":[[497,504],null]},{"Or":[505]},{"Token":36},{"Token":61},{"And":[[508],null]},"Eof",{"And":[[510],null]},{"Token":39},{"Not":512},{"Not":513},{"And":[[514],null]},{"Or":[509,511,515]},{"And":[[49,33,516],null]},{"Or":[517]},{"Rep":518},{"And":[[507,519],1]},{"Or":[520]},{"And":[[41],null]},{"Enter":[3,41]},{"And":[[523],null]},{"Enter":[1,41]},{"And":[[525],null]},{"Token":60},{"And":[[527,45],null]},{"Or":[528]},{"Token":60},{"Opt":530},{"And":[[531,45],null]},{"Or":[532]},{"Token":60},{"And":[[534,45],null]},{"Or":[535]},{"And":[[41,536],null]},{"Or":[537]},{"Token":5},{"And":[[49,539,49],1]},{"Or":[540]},{"Call":[154,[[5,541]]]},{"Token":60},{"And":[[542,543,45],1]},{"Or":[544]},{"Token":92},{"And":[[546],null]},{"Token":18},{"And":[[548],null]},{"Token":19},{"And":[[550],null]},{"Or":[547,549,551]},{"And":[[46],null]},{"IsIn":3},{"And":[[554,47],null]},{"Or":[553,555]},{"Opt":556},{"And":[[552,557],null]},{"Or":[558]},{"IsIn":3},{"And":[[560],null]},{"IsIn":1},{"Token":60},{"And":[[562,563],null]},{"Or":[561,564]},{"Token":87},{"Call":[151,[[2,566]]]},{"Token":92},{"Token":53},{"And":[[568,569],null]},{"Or":[570]},{"Not":571},{"And":[[572,49],null]},{"Or":[573]},{"Call":[151,[[2,574]]]},{"Token":92},{"Token":53},{"And":[[576,577,49],null]},{"Or":[578]},{"Call":[151,[[2,579]]]},{"And":[[567,575,580],null]},{"Or":[581]},{"Call":[154,[[5,582]]]},{"And":[[565,583],null]},{"Or":[584]},{"Call":[151,[[2,49]]]},{"Call":[153,[[4,586]]]},{"Opt":9},{"And":[[587,588],null]},{"Or":[589]},{"Token":5},{"Token":92},{"And":[[591,592],null]},{"Or":[593]},{"Token":73},{"And":[[595,34],null]},{"Or":[596]},{"Rep":597},{"And":[[50,598],null]},{"Or":[599]},{"And":[[51],null]},{"And":[[52],null]},{"And":[[53],null]},{"And":[[54],null]},{"And":[[55],null]},{"And":[[56],null]},{"And":[[58],null]},{"And":[[59],null]},{"And":[[60],null]},{"And":[[63],null]},{"And":[[39],null]},{"Or":[611]},{"And":[[121,49],null]},{"Or":[613]},{"Token":67},{"Token":21},{"And":[[616],null]},{"Token":27},{"And":[[618],null]},{"Or":[617,619]},{"And":[[615,620,49],null]},{"Or":[621]},{"Token":81},{"And":[[623],null]},{"Or":[624]},{"Token":37},{"Token":38},{"And":[[626,627],null]},{"Or":[628]},{"Opt":57},{"And":[[49,630],null]},{"Or":[631]},{"Call":[153,[[4,632]]]},{"And":[[633],null]},{"Or":[634]},{"Token":61},{"Call":[151,[[2,49]]]},{"And":[[636,637],null]},{"Or":[638]},{"Token":82},{"And":[[640],null]},{"Or":[641]},{"Token":58},{"And":[[643,76],null]},{"Or":[644]},{"Opt":645},{"And":[[49,646],null]},{"Or":[647]},{"Call":[155,[[6,648]]]},{"And":[[649],null]},{"Or":[650]},{"Opt":10},{"Token":8},{"Call":[151,[[2,61]]]},{"Call":[153,[[4,654]]]},{"Opt":9},{"And":[[652,653,655,656],2]},{"Or":[657]},{"Not":62},{"Not":659},{"Token":59},{"And":[[660,64,661],null]},{"Or":[662]},{"Opt":663},{"And":[[664,49],null]},{"Or":[665]},{"Token":77},{"And":[[667],null]},{"Token":28},{"And":[[669],null]},{"Token":27},{"And":[[671],null]},{"Or":[668,670,672]},{"Rep":673},{"Token":92},{"And":[[675],null]},{"Token":81},{"And":[[677],null]},{"Or":[676,678]},{"Token":59},{"And":[[674,679,680],null]},{"Token":23},{"And":[[682,31,49],1]},{"Or":[683]},{"And":[[65],null]},{"And":[[66],null]},{"And":[[70],null]},{"And":[[71],null]},{"And":[[72],null]},{"And":[[73],null]},{"And":[[75],null]},{"Token":81},{"And":[[692],null]},{"Or":[693]},{"And":[[67],null]},{"And":[[68],null]},{"Or":[695,696]},{"Opt":697},{"And":[[40,698],null]},{"Or":[699]},{"Call":[151,[[2,64]]]},{"Token":63},{"Token":61},{"Opt":703},{"And":[[702,704],null]},{"Or":[705]},{"Opt":706},{"And":[[701,707],null]},{"Or":[708]},{"Call":[153,[[4,709]]]},{"And":[[710],null]},{"Or":[711]},{"Call":[151,[[2,69]]]},{"Token":63},{"Token":61},{"Opt":715},{"And":[[714,716],null]},{"Or":[717]},{"Opt":718},{"And":[[713,719],null]},{"Or":[720]},{"Call":[152,[[3,721]]]},{"And":[[722],null]},{"Or":[723]},{"Token":59},{"Not":725},{"And":[[70,726],null]},{"Token":92},{"Token":59},{"And":[[728,729,64],2]},{"Or":[727,730]},{"Token":28},{"Opt":732},{"Token":27},{"Opt":734},{"Token":92},{"And":[[733,735,736],null]},{"Or":[737]},{"And":[[80],null]},{"Or":[739]},{"Token":37},{"Token":38},{"And":[[741,742],null]},{"Or":[743]},{"Opt":74},{"And":[[64,745],null]},{"Or":[746]},{"Call":[153,[[4,747]]]},{"And":[[748],null]},{"Or":[749]},{"Token":61},{"Call":[151,[[2,64]]]},{"And":[[751,752],null]},{"Or":[753]},{"Token":77},{"Token":27},{"Opt":756},{"And":[[755,757,64],null]},{"Or":[758]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":762},{"And":[[760,761,763,114],null]},{"Or":[764]},{"IsIn":2},{"Not":78},{"And":[[766,767],null]},{"IsIn":2},{"Not":769},{"And":[[770],null]},{"Or":[768,771]},{"And":[[772,114],null]},{"Or":[773]},{"Token":62},{"Token":92},{"And":[[776],null]},{"Token":89},{"And":[[778],null]},{"Or":[777,779]},{"And":[[775,780],null]},{"Or":[781]},{"Call":[155,[[6,76]]]},{"Token":83},{"Token":5},{"And":[[785,49],null]},{"Or":[786]},{"Token":67},{"Token":75},{"Token":82},{"Token":67},{"And":[[791],null]},{"Token":69},{"And":[[793],null]},{"Token":71},{"And":[[795],null]},{"Or":[792,794,796]},{"Call":[128,[[1,797]]]},{"Token":73},{"And":[[799],null]},{"Token":75},{"And":[[801],null]},{"Or":[800,802]},{"Call":[128,[[1,803]]]},{"ContextualToken":[45,"<<"]},{"And":[[805],null]},{"ContextualToken":[47,">>"]},{"And":[[807],null]},{"Or":[806,808]},{"Call":[128,[[1,809]]]},{"Token":77},{"Token":77},{"Not":812},{"And":[[811,813],null]},{"Or":[814]},{"Call":[128,[[1,815]]]},{"Token":84},{"Call":[128,[[1,817]]]},{"Token":79},{"Token":79},{"Not":820},{"And":[[819,821],null]},{"Or":[822]},{"Call":[128,[[1,823]]]},{"Call":[128,[[1,133]]]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,826]]]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,828]]]},{"Call":[128,[[1,141]]]},{"Token":53},{"And":[[831],null]},{"Token":74},{"And":[[833],null]},{"Token":76},{"And":[[835],null]},{"Token":68},{"And":[[837],null]},{"Token":70},{"And":[[839],null]},{"Token":72},{"And":[[841],null]},{"Token":78},{"And":[[843],null]},{"Token":80},{"And":[[845],null]},{"Token":85},{"And":[[847],null]},{"ContextualToken":[48,">>="]},{"And":[[849],null]},{"ContextualToken":[46,"<<="]},{"And":[[851],null]},{"Or":[832,834,836,838,840,842,844,846,848,850,852]},{"Call":[128,[[1,853]]]},{"And":[[80],null]},{"Token":92},{"And":[[856],null]},{"Token":87},{"And":[[858],null]},{"Token":18},{"And":[[860],null]},{"Token":19},{"And":[[862],null]},{"Token":41},{"And":[[864],null]},{"Token":60},{"And":[[866],null]},{"Token":37},{"And":[[868],null]},{"Token":43},{"And":[[870],null]},{"Token":79},{"And":[[872],null]},{"Token":31},{"And":[[874],null]},{"Token":39},{"And":[[876],null]},{"Token":14},{"And":[[878],null]},{"Token":25},{"And":[[880],null]},{"Token":24},{"And":[[882],null]},{"Token":23},{"And":[[884],null]},{"Token":30},{"And":[[886],null]},{"Token":26},{"And":[[888],null]},{"Token":32},{"And":[[890],null]},{"Token":33},{"And":[[892],null]},{"Token":77},{"And":[[894],null]},{"Token":67},{"And":[[896],null]},{"Token":75},{"And":[[898],null]},{"Token":82},{"And":[[900],null]},{"Token":63},{"And":[[902],null]},{"Token":64},{"And":[[904],null]},{"PrevIs":[163,168,169,170,171,172,175]},{"And":[[906],null]},{"Var":0},{"Exit":[2,908]},{"Exit":[0,909]},{"And":[[910],null]},{"Token":89},{"And":[[912],null]},{"Token":90},{"And":[[914],null]},{"Token":91},{"And":[[916],null]},{"Token":86},{"And":[[918],null]},{"Token":88},{"And":[[920],null]},{"Or":[913,915,917,919,921]},{"Token":92},{"Token":82},{"And":[[923,924],null]},{"Or":[925]},{"Not":926},{"Opt":82},{"And":[[927,40,928],null]},{"Or":[929]},{"IsIn":0},{"Not":931},{"Call":[151,[[2,83]]]},{"Token":63},{"Call":[79,[[0,76]]]},{"And":[[934,935],null]},{"Or":[936]},{"Opt":937},{"And":[[933,938],null]},{"Or":[939]},{"Call":[152,[[3,940]]]},{"And":[[932,941],null]},{"Or":[942]},{"Token":92},{"Token":59},{"And":[[945,76],null]},{"Or":[946]},{"Opt":947},{"And":[[944,948],1]},{"Or":[949]},{"Token":37},{"Token":38},{"And":[[951,952],null]},{"Or":[953]},{"Call":[79,[[0,76]]]},{"Opt":86},{"And":[[955,956],null]},{"Or":[957]},{"Call":[153,[[4,958]]]},{"And":[[959],null]},{"Or":[960]},{"Token":61},{"Call":[79,[[0,76]]]},{"Call":[151,[[2,963]]]},{"And":[[962,964],null]},{"Or":[965]},{"Token":58},{"And":[[967,76],null]},{"Token":61},{"Call":[151,[[2,76]]]},{"And":[[969,970],null]},{"Or":[968,971]},{"Opt":972},{"And":[[76,973],null]},{"Or":[974]},{"Call":[79,[[0,975]]]},{"Call":[155,[[6,976]]]},{"And":[[977],null]},{"Or":[978]},{"Token":26},{"Opt":980},{"Token":79},{"Rep":89},{"Token":79},{"Token":51},{"And":[[985,49,92],null]},{"Call":[79,[[0,76]]]},{"And":[[987],null]},{"Or":[986,988]},{"And":[[981,982,983,984,989],null]},{"Or":[990]},{"Token":61},{"And":[[992],null]},{"Token":79},{"Not":994},{"Not":995},{"And":[[996],null]},{"Or":[993,997]},{"And":[[13,998],1]},{"Token":31},{"Opt":76},{"And":[[1000,1001],null]},{"Or":[1002]},{"Token":33},{"And":[[1004],null]},{"Token":32},{"And":[[1006],null]},{"Or":[1005,1007]},{"Token":87},{"Opt":1009},{"And":[[1008,1010],null]},{"Or":[1011]},{"Token":35},{"Opt":1013},{"WithSkip":[94,93]},{"Rep":1015},{"Call":[152,[[3,1016]]]},{"And":[[1014,1017],null]},{"Or":[1018]},{"Call":[79,[[0,1019]]]},{"And":[[1020],null]},{"Or":[1021]},{"And":[[95],null]},{"And":[[97],null]},{"And":[[3],null]},{"And":[[98],null]},{"Token":9},{"And":[[1027],null]},{"Token":58},{"And":[[1029],null]},{"And":[[2],null]},{"And":[[77],null]},{"Token":9},{"Opt":96},{"Token":53},{"And":[[1035,76],1]},{"Or":[1036]},{"Opt":1037},{"Token":58},{"And":[[1033,64,1034,1038,1039],1]},{"Or":[1040]},{"Token":59},{"And":[[1042,49],null]},{"Or":[1043]},{"Token":58},{"And":[[1045],null]},{"Or":[1046]},{"And":[[78],null]},"Eof",{"And":[[1049],null]},{"Token":58},{"And":[[1051],null]},{"Or":[1048,1050,1052]},{"And":[[76,1053],1]},{"Or":[1054]},{"Enter":[2,1055]},{"And":[[1056],null]},{"Or":[1057]},{"Token":14},{"Token":15},{"And":[[92],null]},{"And":[[99],null]},{"Or":[1061,1062]},{"And":[[1060,1063],null]},{"Or":[1064]},{"Opt":1065},{"And":[[1059,101,92,1066],1]},{"Or":[1067]},{"Opt":105},{"Token":25},{"And":[[1069,1070,101,92],2]},{"Or":[1071]},{"Token":9},{"Token":53},{"And":[[1073,64,1074],1]},{"Or":[1075]},{"Opt":1076},{"And":[[1077,102],1]},{"Enter":[0,76]},{"And":[[1079],null]},{"Opt":105},{"Token":24},{"And":[[1081,1082,92],2]},{"Or":[1083]},{"Opt":105},{"Token":23},{"Token":34},{"And":[[1085,1086,64,1087,102,92],2]},{"Or":[1088]},{"Token":87},{"Token":59},{"And":[[1090,1091],null]},{"Token":30},{"Rep":107},{"Call":[152,[[3,1094]]]},{"And":[[1093,102,1095],1]},{"Or":[1096]},{"Token":52},{"Enter":[2,76]},{"Token":61},{"And":[[1100],null]},"Eof",{"And":[[1102],null]},{"And":[[78],null]},{"Or":[1101,1103,1104]},{"And":[[108,1098,1099,1105],1]},{"Or":[1106]},{"Token":79},{"And":[[1108,64],null]},{"Or":[1109]},{"Rep":1110},{"Opt":109},{"And":[[64,1111,1112],null]},{"Token":14},{"And":[[1114,76],null]},{"Or":[1115]},{"And":[[148],null]},{"Or":[1117]},{"And":[[149],null]},{"Or":[1119]},{"Token":62},{"Token":92},{"Enter":[1,46]},{"Opt":1123},{"And":[[1121,1122,1124,114],null]},{"Or":[1125]},{"And":[[76,1126],null]},{"Or":[1127]},{"IsIn":2},{"Not":78},{"And":[[1129,1130],null]},{"IsIn":2},{"Not":1132},{"And":[[1133],null]},{"Or":[1131,1134]},{"And":[[1135,114],null]},{"Or":[1136]},{"And":[[76,1137],null]},{"Or":[1138]},{"Call":[151,[[2,115]]]},{"Call":[153,[[4,1140]]]},{"Call":[79,[[0,1141]]]},{"And":[[1142],null]},{"And":[[76],null]},{"Or":[1144]},{"Token":62},{"Token":92},{"And":[[1147],null]},{"Token":89},{"And":[[1149],null]},{"Or":[1148,1150]},{"And":[[1146,1151],null]},{"Or":[1152]},{"And":[[76,1153],null]},{"Or":[1154]},{"Call":[155,[[6,76]]]},{"And":[[76,1156],null]},{"Or":[1157]},{"Token":83},{"And":[[76,1159],null]},{"Or":[1160]},{"Token":5},{"And":[[1162,49],null]},{"Or":[1163]},{"And":[[76,1164],null]},{"Or":[1165]},{"And":[[121,76],null]},{"Or":[1167]},{"Token":77},{"Token":87},{"Opt":1170},{"Token":27},{"Opt":1172},{"And":[[1169,1171,1173],null]},{"Token":67},{"And":[[1175,76],null]},{"Or":[1176]},{"Token":75},{"And":[[1178,76],null]},{"Or":[1179]},{"Token":82},{"And":[[1181,76],null]},{"Or":[1182]},{"Token":67},{"And":[[1184],null]},{"Token":69},{"And":[[1186],null]},{"Token":71},{"And":[[1188],null]},{"Or":[1185,1187,1189]},{"Call":[128,[[1,1190]]]},{"And":[[76,1191,76],null]},{"Or":[1192]},{"Token":73},{"And":[[1194],null]},{"Token":75},{"And":[[1196],null]},{"Or":[1195,1197]},{"Call":[128,[[1,1198]]]},{"And":[[76,1199,76],null]},{"Or":[1200]},{"ContextualToken":[45,"<<"]},{"And":[[1202],null]},{"ContextualToken":[47,">>"]},{"And":[[1204],null]},{"Or":[1203,1205]},{"Call":[128,[[1,1206]]]},{"And":[[76,1207,76],null]},{"Or":[1208]},{"IsIn":2},{"Not":78},{"Var":1},{"And":[[1210,1211,1212],null]},{"IsIn":2},{"Not":1214},{"Var":1},{"And":[[1215,1216],null]},{"Token":77},{"Token":77},{"Not":1219},{"And":[[1218,1220],null]},{"Or":[1221]},{"Call":[128,[[1,1222]]]},{"And":[[76,1223,76],null]},{"Or":[1224]},{"Token":84},{"Call":[128,[[1,1226]]]},{"And":[[76,1227,76],null]},{"Or":[1228]},{"Token":79},{"Token":79},{"Not":1231},{"And":[[1230,1232],null]},{"Or":[1233]},{"Call":[128,[[1,1234]]]},{"And":[[76,1235,76],null]},{"Or":[1236]},{"Call":[128,[[1,133]]]},{"And":[[76,1238,76],null]},{"Or":[1239]},{"Token":54},{"And":[[1241],null]},{"Token":55},{"And":[[1243],null]},{"Token":41},{"Token":57},{"Not":1246},{"And":[[1245,1247],null]},{"Token":42},{"Token":56},{"Not":1250},{"And":[[1249,1251],null]},{"Token":57},{"And":[[1253],null]},{"Token":56},{"And":[[1255],null]},{"ContextualToken":[49,"&&"]},{"Call":[128,[[1,1257]]]},{"And":[[76,1258,76],null]},{"Or":[1259]},{"ContextualToken":[50,"||"]},{"Call":[128,[[1,1261]]]},{"And":[[76,1262,76],null]},{"Or":[1263]},{"Call":[128,[[1,141]]]},{"And":[[76,1265,76],null]},{"Or":[1266]},{"And":[[141,76],null]},{"Or":[1268]},{"And":[[76,140],null]},{"Or":[1270]},{"Token":63},{"Not":77},{"And":[[1272,1273],null]},{"Or":[1274]},{"Token":63},{"And":[[1276],null]},{"Token":64},{"And":[[1278],null]},{"Not":77},{"Not":1280},{"Token":39},{"IsIn":0},{"And":[[1282,1283],null]},{"Or":[1284]},{"Not":1285},{"And":[[140,1281,1286],null]},{"Token":53},{"And":[[1288],null]},{"Token":74},{"And":[[1290],null]},{"Token":76},{"And":[[1292],null]},{"Token":68},{"And":[[1294],null]},{"Token":70},{"And":[[1296],null]},{"Token":72},{"And":[[1298],null]},{"Token":78},{"And":[[1300],null]},{"Token":80},{"And":[[1302],null]},{"Token":85},{"And":[[1304],null]},{"ContextualToken":[48,">>="]},{"And":[[1306],null]},{"ContextualToken":[46,"<<="]},{"And":[[1308],null]},{"Or":[1289,1291,1293,1295,1297,1299,1301,1303,1305,1307,1309]},{"Call":[128,[[1,1310]]]},{"And":[[76,1311,76],null]},{"Or":[1312]},{"Token":65},{"And":[[1314,145],null]},{"Or":[1315]},{"Token":65},{"Token":82},{"And":[[1317,1318,145],null]},{"Or":[1319]},{"Call":[151,[[2,147]]]},{"Call":[155,[[6,1321]]]},{"And":[[1322],null]},{"Rep":143},{"And":[[1324],null]},{"Token":92},{"Token":53},{"And":[[1327,76],null]},{"Call":[151,[[2,147]]]},{"Call":[153,[[4,1329]]]},{"And":[[1330],null]},{"Or":[1328,1331]},{"Opt":1332},{"And":[[1326,1333],1]},{"Or":[1334]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1338},{"Rep":150},{"Call":[152,[[3,1340]]]},{"And":[[1336,1337,1339,1341],null]},{"Or":[1342]},{"Token":92},{"Token":82},{"Token":92},{"Opt":1346},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1348,1349,1350],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1352,1353,1354],null]},{"Or":[1351,1355]},{"And":[[1344,1345,1347,1356],null]},{"Or":[1357]},{"Token":37},{"And":[[1359],null]},{"Token":38},{"And":[[1361],null]},{"Token":39},{"And":[[1363],null]},{"Token":40},{"And":[[1365],null]},{"Token":43},{"And":[[1367],null]},{"Token":44},{"And":[[1369],null]},{"Or":[1360,1362,1364,1366,1368,1370]},{"Not":1371},"Any",{"And":[[1372,1373],null]},{"Token":37},{"Rep":150},{"Token":38},{"And":[[1375,1376,1377],null]},{"Token":43},{"Rep":150},{"Token":44},{"And":[[1379,1380,1381],null]},{"Token":39},{"Rep":150},{"Token":40},{"And":[[1383,1384,1385],null]},{"Or":[1374,1378,1382,1386]},{"Var":2},"Eof",{"And":[[1389],null]},{"Token":61},{"And":[[1391],null]},{"Or":[1390,1392]},{"And":[[1388,1393],1]},{"Or":[1394]},{"Rep":1395},{"And":[[1396],null]},{"Token":39},{"Token":40},{"Var":3},{"Call":[156,[[7,1398],[8,1399],[9,1400]]]},{"And":[[1401],null]},{"Token":37},{"Token":38},{"Var":4},{"Call":[156,[[7,1403],[8,1404],[9,1405]]]},{"And":[[1406],null]},{"Token":41},{"Token":42},{"Var":5},{"Call":[156,[[7,1408],[8,1409],[9,1410]]]},{"And":[[1411],null]},{"Token":43},{"Token":44},{"Var":6},{"Call":[156,[[7,1413],[8,1414],[9,1415]]]},{"And":[[1416],null]},{"Var":7},{"Var":7},{"Var":8},{"Call":[157,[[10,1419],[11,1420]]]},{"Var":9},{"Layer":[1421,1422]},{"Var":8},{"And":[[1418,1423,1424],1]},{"Var":10},{"Var":10},{"Var":11},{"Call":[157,[[10,1427],[11,1428]]]},{"Var":11},{"And":[[1426,1429,1430],1]},{"Var":11},{"Not":1432},"Any",{"And":[[1433,1434],null]},{"Or":[1435]},{"And":[[1436],null]},{"Or":[1431,1437]},{"Rep":1438},{"And":[[1439],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From d6d0e27034f907954296a82d017c160cb9124655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 41/46] fix: columns of symbols count UTF-16 code units, as the
 editor does

---
 lang/rust/src/editor/line_index.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lang/rust/src/editor/line_index.rs b/lang/rust/src/editor/line_index.rs
index c8a85c9..ba108ad 100644
--- a/lang/rust/src/editor/line_index.rs
+++ b/lang/rust/src/editor/line_index.rs
@@ -3,8 +3,12 @@ use fall_tree::{TextUnit, tu, Text};
 
 pub struct LineIndex {
     newlines: Vec<TextUnit>,
+    /// For each character that UTF-16 has fewer units for than UTF-8 has bytes:
+    /// its end, and how many units the text up to there is short of.
+    excess: Vec<(TextUnit, u32)>,
 }
 
+/// The column counts UTF-16 code units, as editors do.
 #[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
 pub struct LineCol {
     pub line: u32,
@@ -14,21 +18,35 @@ pub struct LineCol {
 impl LineIndex {
     pub fn new(text: Text) -> LineIndex {
         let mut newlines = vec![tu(0)];
+        let mut excess = Vec::new();
+        let mut total_excess = 0;
         let mut curr = tu(0);
         for c in text.to_string().chars() {
             curr += tu(c.len_utf8() as u32);
+            if c.len_utf8() != c.len_utf16() {
+                total_excess += (c.len_utf8() - c.len_utf16()) as u32;
+                excess.push((curr, total_excess));
+            }
             if c == '\n' {
                 newlines.push(curr);
             }
         }
-        LineIndex { newlines }
+        LineIndex { newlines, excess }
     }
 
     pub fn translate(&self, offset: TextUnit) -> LineCol {
         let line = self.newlines.upper_bound(&offset) - 1;
         let line_start_offset = self.newlines[line];
-        let col = offset - line_start_offset;
-        return LineCol { line: line as u32, col: col.into() }
+        let col: u32 = (offset - line_start_offset).into();
+        let col = col - (self.excess_at(offset) - self.excess_at(line_start_offset));
+        return LineCol { line: line as u32, col }
+    }
+
+    fn excess_at(&self, offset: TextUnit) -> u32 {
+        match self.excess.upper_bound_by_key(&offset, |&(end, _)| end) {
+            0 => 0,
+            n => self.excess[n - 1].1,
+        }
     }
 }
 
-- 
2.43.0


From 4f0c4ace9f3eafe3cd28e2364d868cf9025ae6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 42/46] fix: a deletion at the end of a text reaches the editor

---
 code/generic_backend/src/lib.rs | 11 ++++++++---
 code/rust/native/src/lib.rs     |  6 ++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/generic_backend/src/lib.rs b/code/generic_backend/src/lib.rs
index b444207..091934d 100644
--- a/code/generic_backend/src/lib.rs
+++ b/code/generic_backend/src/lib.rs
@@ -147,7 +147,7 @@ pub fn reformat<I: EditorFileImpl, C: Class<Internals=EditorFile<I>>>(call: Call
     let mut editor_file = call.arguments.require(scope, 0)?.check::<C>()?;
     let result = editor_file.grab(|file| {
         let edits = file.reformat();
-        to_vs_edits(edits)
+        to_vs_edits(file.file().text(), edits)
     });
     ret(scope, result)
 }
@@ -180,7 +180,8 @@ pub fn apply_context_action<I: EditorFileImpl, C: Class<Internals=EditorFile<I>>
     let range: TextRange = arg(scope, &call.arguments, 1)?;
     let id: String = arg(scope, &call.arguments, 2)?;
     let result = editor_file.grab(move |file| {
-        file.apply_context_action(range, &id).map(to_vs_edits)
+        file.apply_context_action(range, &id)
+            .map(|edit| to_vs_edits(file.file().text(), edit))
     });
     ret(scope, result)
 }
@@ -199,7 +200,7 @@ pub fn from_vs_edits(text: Text, edits: Vec<VsEdit>) -> TextEdit {
     edit.build()
 }
 
-pub fn to_vs_edits(edit: TextEdit) -> Vec<VsEdit> {
+pub fn to_vs_edits(text: Text, edit: TextEdit) -> Vec<VsEdit> {
     let mut result = Vec::new();
     let mut offset = tu(0);
     for op in edit.ops {
@@ -217,6 +218,10 @@ pub fn to_vs_edits(edit: TextEdit) -> Vec<VsEdit> {
             }
         }
     }
+    let end = text.len();
+    if offset != end {
+        result.push(VsEdit { delete: TextRange::from_to(offset, end), insert: String::new() })
+    }
 
     return result;
 }
diff --git a/code/rust/native/src/lib.rs b/code/rust/native/src/lib.rs
index 62d18ea..64238cc 100644
--- a/code/rust/native/src/lib.rs
+++ b/code/rust/native/src/lib.rs
@@ -14,6 +14,7 @@ use neon::js::{JsValue, JsFunction};
 use neon::js::class::{JsClass, Class};
 
 use generic_backend::{arg, ret, to_vs_edits};
+use generic_backend::fall_editor::EditorFileImpl;
 use fall_tree::TextUnit;
 use lang_rust::editor::RustEditorFile;
 use lang_rust::editor::SymbolIndex;
@@ -63,8 +64,9 @@ fn expand(call: Call) -> JsResult<JsValue> {
     let scope = call.scope;
     let mut file = call.arguments.require(scope, 0)?.check::<JsRustEditorFile>()?;
     let offset: TextUnit = arg(scope, &call.arguments, 1)?;
-    let edit = file.grab(move |file| file.expand(offset));
-    let result = edit.map(to_vs_edits);
+    let result = file.grab(move |file| {
+        file.expand(offset).map(|edit| to_vs_edits(file.file().text(), edit))
+    });
     ret(scope, result)
 }
 
-- 
2.43.0


From 8a59b06feb5d2a3f5fcabe1aca4e7d49191c51d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 43/46] fix: the editor extensions convert between UTF-16 and
 UTF-8 offsets

---
 code/common.ts        | 72 ++++++++++++++++++++++++++++++++++++++++---
 code/fall/src/main.ts |  8 ++---
 code/rust/src/main.ts |  6 ++--
 3 files changed, 75 insertions(+), 11 deletions(-)

diff --git a/code/common.ts b/code/common.ts
index a5933eb..47e97c8 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -158,12 +158,16 @@ export class EditorFile {
 
 function documentToFile(backend, fileExtension: string, disposables: vscode.Disposable[], onChange) {
     let docs = {}
+    // of the texts that the files in `docs` have
+    let offsets: { [key: string]: Offsets } = {}
     function update(doc: vscode.TextDocument, file) {
         let key = doc.uri.toString()
         if (file == null) {
             delete docs[key]
+            delete offsets[key]
         } else {
             docs[key] = file
+            offsets[key] = offsetsOf(doc)
         }
         onChange(doc)
     }
@@ -180,10 +184,15 @@ function documentToFile(backend, fileExtension: string, disposables: vscode.Disp
         if (!isKnownDoc(event.document)) return
         let tree = get(doc)
         if (event.contentChanges.length == 1 && tree) {
+            let before = offsets[doc.uri.toString()]
             let edits = event.contentChanges.map((change) => {
+                // the text before the change is still the same
                 let start = doc.offsetAt(change.range.start)
                 return {
-                    "delete": [start, start + change.rangeLength],
+                    "delete": [
+                        before.toBackend(start),
+                        before.toBackend(start + change.rangeLength)
+                    ],
                     "insert": change.text
                 }
             })
@@ -351,13 +360,68 @@ function setHighlights(
 
 export function toVsRange(doc: vscode.TextDocument, range: [number, number]): vscode.Range {
     return new vscode.Range(
-        doc.positionAt(range[0]),
-        doc.positionAt(range[1]),
+        toVsPosition(doc, range[0]),
+        toVsPosition(doc, range[1]),
     )
 }
 
+export function toVsPosition(doc: vscode.TextDocument, offset: number): vscode.Position {
+    return doc.positionAt(offsetsOf(doc).fromBackend(offset))
+}
+
 function fromVsRange(doc: vscode.TextDocument, range: vscode.Range): [number, number] {
-    return [doc.offsetAt(range.start), doc.offsetAt(range.end)]
+    return [fromVsPosition(doc, range.start), fromVsPosition(doc, range.end)]
+}
+
+export function fromVsPosition(doc: vscode.TextDocument, position: vscode.Position): number {
+    return offsetsOf(doc).toBackend(doc.offsetAt(position))
+}
+
+// The backend counts the bytes of a text in UTF-8, the editor its UTF-16 code units.
+class Offsets {
+    // for each code unit, the bytes before it; null if every character is a single byte
+    private bytes: Array<number> | null = null
+
+    constructor(text: string) {
+        if (Buffer.byteLength(text) == text.length) return
+        this.bytes = []
+        let total = 0
+        for (let char of text) {
+            this.bytes.push(total)
+            if (char.length == 2) this.bytes.push(total)
+            total += Buffer.byteLength(char)
+        }
+        this.bytes.push(total)
+    }
+
+    toBackend(offset: number): number {
+        return this.bytes == null ? offset : this.bytes[offset]
+    }
+
+    fromBackend(offset: number): number {
+        if (this.bytes == null) return offset
+        let [lo, hi] = [0, this.bytes.length - 1]
+        while (lo < hi) {
+            let mid = (lo + hi) >> 1
+            if (this.bytes[mid] < offset) {
+                lo = mid + 1
+            } else {
+                hi = mid
+            }
+        }
+        return lo
+    }
+}
+
+const offsetsCache = new WeakMap<vscode.TextDocument, { version: number, offsets: Offsets }>()
+
+function offsetsOf(doc: vscode.TextDocument): Offsets {
+    let cached = offsetsCache.get(doc)
+    if (cached == null || cached.version != doc.version) {
+        cached = { version: doc.version, offsets: new Offsets(doc.getText()) }
+        offsetsCache.set(doc, cached)
+    }
+    return cached.offsets
 }
 
 export function toVsEdits(doc: vscode.TextDocument, edits): Array<vscode.TextEdit> {
diff --git a/code/fall/src/main.ts b/code/fall/src/main.ts
index 080619d..6c9816b 100644
--- a/code/fall/src/main.ts
+++ b/code/fall/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, EditorFile, toVsRange } from './common'
+import { createPlugin, EditorFile, toVsRange, fromVsPosition } from './common'
 import { log } from 'util'
 import { connect } from 'net';
 
@@ -61,7 +61,7 @@ class DefinitionProvider implements vscode.DefinitionProvider {
     ): vscode.Location {
         let file = this.getFile(document)
         if (file == null) return
-        let range = file.call("resolveReference", document.offsetAt(position))
+        let range = file.call("resolveReference", fromVsPosition(document, position))
         if (range == null) return null
         let vsRange =  toVsRange(document, range)
         return new vscode.Location(document.uri, vsRange)
@@ -82,7 +82,7 @@ class ReferenceProvider implements vscode.ReferenceProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        return file.call("findUsages", document.offsetAt(position))
+        return file.call("findUsages", fromVsPosition(document, position))
             .map((range) => new vscode.Location(document.uri, toVsRange(document, range)))
     }
 }
@@ -102,7 +102,7 @@ class CodeActionProvider implements vscode.CodeActionProvider {
         let file = this.getFile(document)
         if (file == null) return
 
-        let test_n = file.call("testAtOffset", document.offsetAt(range.start))
+        let test_n = file.call("testAtOffset", fromVsPosition(document, range.start))
         if (test_n == null) return
         return [
             {
diff --git a/code/rust/src/main.ts b/code/rust/src/main.ts
index e630ff7..8a4a57d 100644
--- a/code/rust/src/main.ts
+++ b/code/rust/src/main.ts
@@ -1,7 +1,7 @@
 'use strict'
 
 import * as vscode from 'vscode'
-import { createPlugin, toVsRange, toVsEdits } from './common'
+import { createPlugin, toVsEdits, fromVsPosition } from './common'
 import { log } from 'util'
 import { Uri, SymbolKind } from 'vscode';
 
@@ -31,7 +31,7 @@ export function activate(context: vscode.ExtensionContext) {
             let doc = event.textEditor.document
             let file = plugin.getFile(doc)
             if (file == null) return
-            let position = doc.offsetAt(event.textEditor.selection.active)
+            let position = fromVsPosition(doc, event.textEditor.selection.active)
             let crumbs = file.call("breadcrumbs", position)
             breadcrumbsBar.text = crumbs.join(" $(chevron-right) ")
         })
@@ -100,7 +100,7 @@ class OnTypeFormattingEditProvider implements vscode.OnTypeFormattingEditProvide
     ): vscode.ProviderResult<vscode.TextEdit[]> {
         let file = this.getFile(document)
         if (file == null) return
-        let offset = document.offsetAt(position)
+        let offset = fromVsPosition(document, position)
         if (ch == ' ') {
             let insert = file.call("afterSpaceTyped", offset)
             if (insert == null) return
-- 
2.43.0


From e40ac495a581451116210fca704e80ae131dff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 44/46] fix: a selection that cannot be extended any more stays
 as it is

---
 code/common.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/common.ts b/code/common.ts
index 47e97c8..4cd992f 100644
--- a/code/common.ts
+++ b/code/common.ts
@@ -72,6 +72,7 @@ export function createPlugin(
             if (editor == null || file == null) return
             editor.selections = editor.selections.map((s) => {
                 let range = file.extendSelection(s)
+                if (range == null) return s
                 return new vscode.Selection(range.start, range.end)
             })
         },
-- 
2.43.0


From 3922216044caf11ee41269f4ffff7f30a2959632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 45/46] fix: operators of the highest priority overflowed while
 parsing

---
 fall/parse/src/lib.rs              | 4 ++--
 fall/parse/src/syn_engine/pratt.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/fall/parse/src/lib.rs b/fall/parse/src/lib.rs
index d7f1671..f3708a2 100644
--- a/fall/parse/src/lib.rs
+++ b/fall/parse/src/lib.rs
@@ -158,10 +158,10 @@ pub struct PrattTable {
 }
 
 impl PrattTable {
-    fn infixes<'p>(&'p self, min_prior: u32) -> Box<dyn Iterator<Item=&'p Infix> + 'p> {
+    fn infixes<'p>(&'p self, min_prior: u64) -> Box<dyn Iterator<Item=&'p Infix> + 'p> {
         Box::new(
             self.infixes.iter()
-                .filter(move |ix| ix.priority >= min_prior)
+                .filter(move |ix| u64::from(ix.priority) >= min_prior)
         )
     }
 }
diff --git a/fall/parse/src/syn_engine/pratt.rs b/fall/parse/src/syn_engine/pratt.rs
index db192a1..7e89df8 100644
--- a/fall/parse/src/syn_engine/pratt.rs
+++ b/fall/parse/src/syn_engine/pratt.rs
@@ -14,7 +14,7 @@ fn pratt_go<'g>(
     p: &mut Parser<'g>,
     table: &'g PrattTable,
     tokens: Pos,
-    min_prior: u32
+    min_prior: u64
 ) -> Option<Pos> {
     let mut lhs = p.mark();
     let mut tokens = match pratt_prefix(p, table, tokens) {
@@ -30,7 +30,7 @@ fn pratt_go<'g>(
                 p.forward_parent(lhs, mark);
                 tokens = rest;
                 if ix.has_rhs {
-                    if let Some(rest) = pratt_go(p, table, tokens, ix.priority + 1) {
+                    if let Some(rest) = pratt_go(p, table, tokens, u64::from(ix.priority) + 1) {
                         tokens = rest;
                     } else {
                         p.start_error();
@@ -62,7 +62,7 @@ fn pratt_prefix<'p>(
     for prefix in table.prefixes.iter() {
         let mark = p.start(prefix.ty);
         if let Some(tokens) = parse_expr(p, prefix.op, tokens) {
-            if let Some(rest) = pratt_go(p, table, tokens, prefix.priority) {
+            if let Some(rest) = pratt_go(p, table, tokens, u64::from(prefix.priority)) {
                 p.prev = Some(p[prefix.ty]);
                 p.finish();
                 return Some(rest);
-- 
2.43.0


From 76b24ebeaa5513836794e40d9e6274867a8ddb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 46/46] fix: grammars with more than 16 contexts or parameters
 panicked while parsing

---
 fall/parse/src/syn_engine/expr.rs   | 17 ++++++++++-------
 fall/parse/src/syn_engine/mod.rs    | 21 +++++++++++++++++++++
 fall/parse/src/syn_engine/parser.rs | 16 +++++++++-------
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index d2402e3..735dc13 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -338,19 +338,22 @@ fn parse_call<'g>(
     body: ExprRef, args: &'g [(Arg, ExprRef)],
 ) -> Option<Pos> {
     let caller = p.frame;
-    let mut frame = p.frames[caller];
+    let callee = p.frames.len();
+    for i in caller..caller + p.frame_size {
+        let arg = p.frames[i];
+        p.frames.push(arg);
+    }
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.frames[caller][i.0 as usize].unwrap(),
+            Expr::Var(i) => p.frames[caller + i.0 as usize].unwrap(),
             _ => (arg, caller)
         };
 
-        frame[arg_pos.0 as usize] = Some(arg);
+        p.frames[callee + arg_pos.0 as usize] = Some(arg);
     }
-    p.frame = p.frames.len();
-    p.frames.push(frame);
+    p.frame = callee;
     let result = parse_expr(p, body, tokens);
-    p.frames.pop();
+    p.frames.truncate(callee);
     p.frame = caller;
     result
 }
@@ -361,7 +364,7 @@ fn parse_var<'g>(
 ) -> Option<Pos> {
     let current = p.frame;
     // Parameters inside of an argument are those of the caller
-    let (expr, frame) = p.frames[current][i.0 as usize].unwrap();
+    let (expr, frame) = p.frames[current + i.0 as usize].unwrap();
     p.frame = frame;
     let result = parse_expr(p, expr, tokens);
     p.frame = current;
diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..0b552b4 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -10,6 +10,27 @@ pub struct Grammar<'g> {
     pub start_rule: ExprRef,
 }
 
+impl<'g> Grammar<'g> {
+    /// The numbers of contexts and of arguments.
+    fn size(&self) -> (usize, usize) {
+        let mut n_contexts = 0;
+        let mut n_args = 0;
+        for rule in self.rules {
+            match *rule {
+                Expr::Enter(ctx, _) | Expr::Exit(ctx, _) | Expr::IsIn(ctx) =>
+                    n_contexts = n_contexts.max(ctx.0 as usize + 1),
+                Expr::Var(arg) =>
+                    n_args = n_args.max(arg.0 as usize + 1),
+                Expr::Call(_, ref args) => for &(arg, _) in args {
+                    n_args = n_args.max(arg.0 as usize + 1)
+                },
+                _ => (),
+            }
+        }
+        (n_contexts, n_args)
+    }
+}
+
 impl<'g> ::std::ops::Index<ExprRef> for Grammar<'g> {
     type Output = Expr;
 
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 90b613e..dca6fd4 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -16,15 +16,15 @@ pub(crate) struct Parser<'g> {
     events: Vec<Event>,
     pub replacement: Option<NodeTypeRef>,
     pub predicate_mode: bool,
-    pub contexts: [bool; 16],
-    pub frames: Vec<Frame>,
+    pub contexts: Vec<bool>,
+    /// Arguments of calls, each with the frame to evaluate it in.
+    /// A frame is `frame_size` places from its index on.
+    pub frames: Vec<Option<(ExprRef, usize)>>,
+    pub frame_size: usize,
     pub frame: usize,
     pub prev: Option<NodeType>,
 }
 
-/// Arguments of a call, each with the frame to evaluate it in.
-pub(crate) type Frame = [Option<(ExprRef, usize)>; 16];
-
 #[derive(Copy, Clone, Debug, Eq, PartialEq)]
 pub(crate) struct Pos(u32, u32);
 
@@ -67,6 +67,7 @@ impl<'g> Parser<'g> {
 
         let pos = Pos(0, non_ws_indexes.len() as u32);
 
+        let (n_contexts, n_args) = grammar.size();
         let parser = Parser {
             cache,
             grammar,
@@ -78,8 +79,9 @@ impl<'g> Parser<'g> {
             events: Vec::new(),
             replacement: None,
             predicate_mode: false,
-            contexts: [false; 16],
-            frames: vec![[None; 16]],
+            contexts: vec![false; n_contexts],
+            frames: vec![None; n_args],
+            frame_size: n_args,
             frame: 0,
             prev: None,
         };
-- 
2.43.0

