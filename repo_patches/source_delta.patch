From 8642afbace98dfe8bc8d09d7ea19ae3e07138042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 1/5] fix: reset GB9c and GB11 context when a cluster leaves it

A linker or pictograph seen earlier in a cluster kept suppressing breaks
after an unrelated character (e.g. <ExtPict, SpacingMark, ZWJ, ExtPict> or
<Consonant, Linker, Consonant, Extend, Consonant>).
---
 src/unicode.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/unicode.rs b/src/unicode.rs
index ec8f089..85cda10 100644
--- a/src/unicode.rs
+++ b/src/unicode.rs
@@ -784,6 +784,7 @@ impl<'a> Iterator for BreakGraphemes<'a> {
         let mut curr = iter.next();
         let mut next = iter.next();
         let mut in_ext_pict = false;
+        let mut after_zwj = false;
         let mut _ri_count = 0; // Ignore compiler not used warning.
         let mut in_indic = false;
         let mut indic_linker = false;
@@ -791,9 +792,15 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             let curr_ch = curr.unwrap();
             let next_ch = next.unwrap_or((self.slice.len(), '\u{0000}'));
             // Prepare for GB11
+            // Only \p{ExtPict} Extend* ZWJ may precede; anything else ends it.
             if curr_ch.1.ext_pict() {
                 in_ext_pict = true;
+            } else if after_zwj
+                || (curr_ch.1.gcb() != Gcb::EX && curr_ch.1.gcb() != Gcb::ZWJ)
+            {
+                in_ext_pict = false;
             }
+            after_zwj = curr_ch.1.gcb() == Gcb::ZWJ;
             // Prepare for GB12, GB13
             if curr_ch.1.gcb() == Gcb::RI {
                 _ri_count += 1;
@@ -801,6 +808,10 @@ impl<'a> Iterator for BreakGraphemes<'a> {
             // Prepare for GB9c
             if curr_ch.1.incb() == Incb::Consonant {
                 in_indic = true;
+                indic_linker = false;
+            }
+            if curr_ch.1.incb() == Incb::None {
+                in_indic = false;
             }
             if in_indic == true && curr_ch.1.incb() == Incb::Linker {
                 indic_linker = true;
-- 
2.43.0


From e1c187c9396848957f8426924abd388650ce34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 2/5] fix: comp_ex of a surrogate code point no longer panics

---
 src/unicode/normalization.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/unicode/normalization.rs b/src/unicode/normalization.rs
index f902adf..14fffde 100644
--- a/src/unicode/normalization.rs
+++ b/src/unicode/normalization.rs
@@ -116,7 +116,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
     // Default value (the code point itself) is not singletons.
     let mut self_char = String::new();
-    self_char.push(std::char::from_u32(code_point.to_u32()).unwrap());
+    match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => self_char.push(ch),
+        // Surrogates have no decomposition.
+        None => return false,
+    }
     if code_point.dm() == self_char {
         return false;
     }
@@ -135,9 +139,11 @@ pub(crate) fn singleton_decomposition(cp: u32) -> bool {
 //          a starter decomposition.
 pub(crate) fn non_starter_decomposition(cp: u32) -> bool {
     let code_point = CodePoint::new(cp).unwrap();
-    let decomposed = canonical_decomposition(
-        vec![std::char::from_u32(code_point.to_u32()).unwrap()]
-    );
+    let decomposed = match std::char::from_u32(code_point.to_u32()) {
+        Some(ch) => canonical_decomposition(vec![ch]),
+        // Surrogates have no decomposition.
+        None => return false,
+    };
     if decomposed.len() > 1 && !starter(decomposed[0] as u32) {
         return true;
     }
-- 
2.43.0


From 231c337677bf94240a362d884077313a27a85470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:15 +0000
Subject: [PATCH 3/5] fix: long names of the general categories Pc and Pi

---
 src/unicode/ucd/property_names.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index c30b796..862eb80 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -80,7 +80,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "No",
         },
         Gc::Pc => PropertyName {
-            full: "Ctor_Punctuation",
+            full: "Connector_Punctuation",
             abbr: "Pc",
         },
         Gc::Pd => PropertyName {
@@ -96,7 +96,7 @@ pub(crate) fn gc_name(prop: Gc) -> PropertyName {
             abbr: "Pf",
         },
         Gc::Pi => PropertyName {
-            full: "Il_Punctuation",
+            full: "Initial_Punctuation",
             abbr: "Pi",
         },
         Gc::Po => PropertyName {
-- 
2.43.0


From d993c069426d98b72a3104fd2c728b4a1ed15646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 4/5] fix: long name of the combining class CCC133

---
 src/unicode/ucd/property_names.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unicode/ucd/property_names.rs b/src/unicode/ucd/property_names.rs
index 862eb80..977c749 100644
--- a/src/unicode/ucd/property_names.rs
+++ b/src/unicode/ucd/property_names.rs
@@ -512,7 +512,7 @@ pub(crate) fn ccc_name(prop: Ccc) -> PropertyName {
             abbr: "CCC132",
         },
         Ccc::CCC133 => PropertyName {
-            full: "RESERVED",
+            full: "CCC133",
             abbr: "CCC133",
         },
         Ccc::ATBL => PropertyName {
-- 
2.43.0


From 4b9a43427bf166298b56b4b8557c6f46361ff55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 5/5] fix: blank lines and values with '=' in .env no longer
 stop gen-json-data.py

---
 tools/ucd-tool/gen-json-data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/ucd-tool/gen-json-data.py b/tools/ucd-tool/gen-json-data.py
index 2f163f1..eb2ca19 100755
--- a/tools/ucd-tool/gen-json-data.py
+++ b/tools/ucd-tool/gen-json-data.py
@@ -103,9 +103,9 @@ def load_env(path):
         f = open(path, 'r')
         lines = f.readlines()
         for line in lines:
-            if line.startswith('#'):
+            if line.startswith('#') or not line.strip():
                 continue
-            (k, v) = line.split('=')
+            (k, v) = line.split('=', 1)
             os.environ[k] = v.strip()
         f.close()
     except FileNotFoundError:
-- 
2.43.0

