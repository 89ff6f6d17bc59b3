From a5e60f551d983d6f54f2a29767f72675e0f2a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 01/31] fix: terminate on end of input in an unclosed
 single-quoted string

The scanner only stopped at a closing quote, so an unterminated string hung
the parser, and with an escaped quote in it, grew the scratch buffer without
bound. Treat end of input as the end of the string, like for double quotes.
---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..e63c761 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -327,6 +327,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -353,6 +356,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From ec5c264f5d8854cadcd0325cc5c1a0ddd0934017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 02/31] fix: make nth_back of the mapping and sequence
 iterators count from the back

---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From 09980003a31294de7b01c5e70879adfd190f3adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 03/31] fix: write the prefix of sequence items as bytes in
 write_to

Formatting it replaced comment bytes which are not UTF-8.
---
 src/yaml/raw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..4116d02 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -801,7 +801,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
-- 
2.43.0


From 02272c1049fb9befa623805f350179e73075ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 04/31] fix: do not write a trailing comma in an emptied inline
 collection

Clearing [1,] produced [,], which does not read back as an empty sequence.
---
 src/yaml/raw.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 4116d02..fd7782d 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -780,7 +780,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -817,7 +817,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
@@ -922,7 +922,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -955,7 +955,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From de4b9e5bf74c8e99de55cd49efdf741a675fb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 05/31] fix: clip trailing newlines of a block scalar without
 chomping indicator

The clip flag was tied to the strip indicator, where it has no effect, so |
and > kept every trailing newline as if they were |+ and >+.
---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index e63c761..cec0bd6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -888,7 +888,7 @@ impl<'a> Parser<'a> {
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
                 b != b'-',
-                b == b'-',
+                b != b'+',
             ),
             _ => {
                 'default: {
-- 
2.43.0


From 805e97fcc766ce9002934626f043e73988eb939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 06/31] fix: make double-quoted strings which the writer
 produces read back

The writer escapes a double quote, an escape which the parser rejected, and
did not escape a backslash, which the parser takes to start an escape. A
backslash is written as a hex escape, which has the same meaning everywhere.
---
 src/yaml/parsing.rs | 2 +-
 src/yaml/raw.rs     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index cec0bd6..e30eb56 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -448,7 +448,7 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
-            b'\\' => b'\"',
+            b'"' | b'\\' => b'\"',
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index fd7782d..0a98597 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -566,6 +566,7 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    '\\' => "\\x5c",
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
@@ -648,7 +649,7 @@ impl String {
             let mut s = 0;
 
             for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
+                let esc: &[u8] = match b {
                     b'\0' => b"\\0",
                     0x07 => b"\\a",
                     0x08 => b"\\b",
@@ -659,6 +660,7 @@ impl String {
                     b'\r' => b"\\r",
                     0x1b => b"\\e",
                     b'\"' => b"\\\"",
+                    b'\\' => b"\\x5c",
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
                         write!(o, "\\x{c:02x}")?;
-- 
2.43.0


From 618568a3d3dc55443bb7fe7b699f9cbbc4af58b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 07/31] fix: parse signed exponents, and require digits in a
 number

Floats are written with exponents like 1.5e-7, which were read back as
strings. Conversely . and 1e were read as numbers without any value.
---
 src/yaml/parsing.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index e30eb56..7887051 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -270,7 +270,6 @@ impl<'a> Parser<'a> {
         let mut wants_dot = true;
         let mut wants_e = true;
         let mut has_number = false;
-        let mut any = false;
 
         loop {
             match self.peek1() {
@@ -282,6 +281,12 @@ impl<'a> Parser<'a> {
                     hint = serde_hint::F64;
                     wants_dot = false;
                     wants_e = false;
+                    // The exponent must have digits of its own, and may be signed.
+                    has_number = false;
+
+                    if matches!(self.peek(), [_, b'+' | b'-']) {
+                        self.bump(1);
+                    }
                 }
                 b'0'..=b'9' => {
                     has_number = true;
@@ -291,11 +296,10 @@ impl<'a> Parser<'a> {
                 }
             }
 
-            any = true;
             self.bump(1);
         }
 
-        if !any {
+        if !has_number {
             return None;
         }
 
-- 
2.43.0


From bcb58832b3cb30133b1602fade8ebafd18344f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 08/31] fix: keep whitespace before separators in inline
 collections, and require them

Whitespace between a value and the following comma or brace was dropped from
inline mappings and rejected in inline sequences, so it is now kept as a
suffix of the item. A missing comma was accepted and then written, and a
number directly followed by other characters was split into two values.
---
 src/yaml/mapping/mapping_mut.rs   |  3 +-
 src/yaml/parsing.rs               | 96 +++++++++++++++++++++++--------
 src/yaml/raw.rs                   |  8 +++
 src/yaml/sequence/sequence_mut.rs |  3 +-
 4 files changed, 83 insertions(+), 27 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..9451b5c 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,9 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
+        let suffix = self.data.insert_str("");
         self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+            .replace(item_id, raw::MappingItem { key, value, suffix });
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 7887051..9778d08 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -258,6 +258,35 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Test if current position contains nothing but whitespace until we reach
+    /// something which separates or ends an inline value.
+    fn is_end_of_inline(&self) -> bool {
+        let mut n = self.n;
+
+        while let Some(&b) = self.input.get(n) {
+            match b {
+                ws!() => {
+                    n = n.wrapping_add(1);
+                }
+                b'#' => {
+                    return n > self.n;
+                }
+                _ => {
+                    return matches!(b, ctl!());
+                }
+            }
+        }
+
+        true
+    }
+
+    /// Rewind past any whitespace consumed since `start`.
+    fn trim_end(&mut self, start: usize) {
+        while let [.., ws!()] = self.string(start) {
+            self.n = self.n.wrapping_sub(1);
+        }
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -303,7 +332,7 @@ impl<'a> Parser<'a> {
             return None;
         }
 
-        if s.tabular && !self.is_eol() {
+        if s.tabular && !self.is_eol() || s.inline && !self.is_end_of_inline() {
             return None;
         }
 
@@ -502,12 +531,12 @@ impl<'a> Parser<'a> {
 
     /// Parse an inline sequence.
     fn inline_sequence(&mut self, s: &State) -> Result<Id> {
+        let empty = self.data.insert_str("");
         let id = self.placeholder(s.prefix, s.parent);
 
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
@@ -519,23 +548,23 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
-
+            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
             items.push(item_id);
 
+            let last = !matches!(self.peek1(), b',');
+
+            // Whitespace after the last value belongs to the sequence.
+            let suffix = if last { empty } else { item_prefix };
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
+
             if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.bump(1);
+            trailing = true;
+            item_prefix = self.ws();
         }
 
         if !matches!(self.peek1(), b']') {
@@ -564,11 +593,11 @@ impl<'a> Parser<'a> {
 
     /// Parse an inline mapping.
     fn inline_mapping(&mut self, s: &State) -> Result<Id> {
+        let empty = self.data.insert_str("");
         let id = self.placeholder(s.prefix, s.parent);
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
@@ -586,22 +615,23 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            start = self.n;
+            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
             items.push(item_id);
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            let last = !matches!(self.peek1(), b',');
+
+            // Whitespace after the last value belongs to the mapping.
+            let suffix = if last { empty } else { item_prefix };
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
 
             if last {
                 break;
             }
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
+            self.bump(1);
+            trailing = true;
             start = self.n;
             item_prefix = self.ws();
         }
@@ -646,7 +676,13 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -715,7 +751,14 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -908,6 +951,9 @@ impl<'a> Parser<'a> {
                         while !matches!(self.peek1(), ctl!()) {
                             self.bump(1);
                         }
+
+                        // Whitespace before a separator is not part of the string.
+                        self.trim_end(start);
                     } else if let Some(key) = self.key_or_eol(start) {
                         return self.mapping_or_nul(s, start, key);
                     }
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 0a98597..28e6b04 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -836,11 +836,14 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator which follows it.
+    pub(crate) suffix: StringId,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -850,6 +853,7 @@ impl SequenceItem {
     {
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
@@ -975,6 +979,8 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator which follows it.
+    pub(crate) suffix: StringId,
 }
 
 impl MappingItem {
@@ -982,6 +988,7 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -993,6 +1000,7 @@ impl MappingItem {
         write!(o, ":")?;
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..76d4c69 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,9 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
+        let suffix = self.data.insert_str("");
         self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+            .replace(item_id, raw::SequenceItem { value, suffix });
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From f9628b245572eb699696fee3517513295d3fb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 09/31] fix: parse quoted keys beyond the first, and bare keys
 consistently

Only the first key of a block mapping could be quoted, and only it required a
colon followed by space. Later keys, and those of inline mappings, kept their
quotes, and a key could extend over several lines. Spaces before the colon are
kept but are not part of the key.
---
 src/yaml/parsing.rs | 100 ++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 36 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9778d08..7553ee0 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -605,7 +605,12 @@ impl<'a> Parser<'a> {
         while !matches!(self.peek1(), b'}' | EOF) {
             trailing = false;
 
-            let Some(key) = self.until_colon(self.n) else {
+            let key = match self.quoted_key()? {
+                Some(key) => Some(key),
+                None => self.until_colon(self.n),
+            };
+
+            let Some(key) = key else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -769,7 +774,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -808,8 +813,7 @@ impl<'a> Parser<'a> {
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
-                    let key = self.data.insert_str(self.string(start));
-                    return Some(raw::String::new(raw::RawStringKind::Bare, key, key));
+                    return Some(self.bare_key(start));
                 }
                 _ => {
                     self.bump(1);
@@ -828,8 +832,42 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        Some(self.bare_key(start))
+    }
+
+    /// Construct the bare key which starts at the given position and ends at
+    /// the current one. Whitespace before the colon is not part of the key.
+    fn bare_key(&mut self, start: usize) -> raw::String {
+        let end = self.n;
+        self.trim_end(start);
         let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        self.n = end;
+
+        let original = self.data.insert_str(self.string(start));
+        raw::String::new(raw::RawStringKind::Original, key, original)
+    }
+
+    /// Process a quoted key, which has to be followed by a `:`.
+    fn quoted_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let mut key = match self.peek1() {
+            b'"' => self.double_quoted()?,
+            b'\'' => self.single_quoted(),
+            _ => return Ok(None),
+        };
+
+        while matches!(self.peek1(), other_ws!()) {
+            self.bump(1);
+        }
+
+        if self.peek1() != b':' {
+            self.n = start;
+            return Ok(None);
+        }
+
+        key.original = self.data.insert_str(self.string(start));
+        Ok(Some(key))
     }
 
     /// Process a block as a string.
@@ -908,23 +946,19 @@ impl<'a> Parser<'a> {
             [b'-', ws!()] if !s.inline => {
                 return self.sequence(s);
             }
-            [b'"', _] => {
+            [b'"' | b'\'', _] => {
                 let start = self.n;
-                let string = self.double_quoted()?;
 
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
+                if !s.inline {
+                    if let Some(key) = self.quoted_key()? {
+                        return self.mapping_or_nul(s, start, key);
+                    }
                 }
 
-                (Raw::String(string), None)
-            }
-            [b'\'', _] => {
-                let start = self.n;
-                let string = self.single_quoted();
-
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
-                }
+                let string = match self.peek1() {
+                    b'"' => self.double_quoted()?,
+                    _ => self.single_quoted(),
+                };
 
                 (Raw::String(string), None)
             }
@@ -986,27 +1020,21 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
-        let start = self.n;
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
+        if self.is_eof() {
+            return Ok(None);
+        }
 
-        let string = loop {
-            match self.peek1() {
-                b':' | EOF => {
-                    let string = self.string(start);
+        let start = self.n;
 
-                    if string.is_empty() {
-                        return None;
-                    }
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
 
-                    break string;
-                }
-                _ => {
-                    self.bump(1);
-                }
-            }
-        };
+        if let Some(key) = self.key_or_eol(start) {
+            return Ok(Some(key));
+        }
 
-        let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator))
     }
 }
-- 
2.43.0


From 43afe3ae328e08f26d58127ad85d211b240ad5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 10/31] fix: keep directives and the start of document marker
 when writing

They were parsed but not recorded, so a document which has them lost them on
any edit. They are now part of the prefix of the root value.
---
 src/yaml/parsing.rs |  9 +++++----
 src/yaml/raw.rs     | 13 +++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 7553ee0..fd52720 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -127,19 +127,20 @@ impl<'a> Parser<'a> {
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
     fn start_of_document(&mut self) -> StringId {
-        let mut prefix = self.ws();
+        let start = self.n;
+        self.ws();
 
         loop {
             match self.peek() {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
-                    prefix = self.ws();
+                    self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
-                    prefix = self.ws();
+                    self.ws();
                     break;
                 }
                 _ => {
@@ -148,7 +149,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        self.data.insert_str(self.string(start))
     }
 
     /// Test if eof.
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 28e6b04..e6fa770 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -106,10 +106,15 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     prefix.push(NEWLINE);
 
     for _ in 0..indent {
-        if let Some(c) = existing.next() {
-            prefix.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
-        } else {
-            prefix.push(SPACE);
+        match existing.next() {
+            // Only whitespace is indentation, there might also be a start of
+            // document marker before the value.
+            Some(c) if c.is_whitespace() => {
+                prefix.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
+            }
+            _ => {
+                prefix.push(SPACE);
+            }
         }
     }
 
-- 
2.43.0


From 7f9be4b3b14a5bf916b4babd8587c6864a961bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 11/31] fix: do not include trailing whitespace in bare scalars

A carriage return or space at the end of the line became part of the string,
and kept keywords like true and null from being recognized.
---
 src/yaml/parsing.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index fd52720..f350e2c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -986,16 +986,15 @@ impl<'a> Parser<'a> {
                         while !matches!(self.peek1(), ctl!()) {
                             self.bump(1);
                         }
-
-                        // Whitespace before a separator is not part of the string.
-                        self.trim_end(start);
                     } else if let Some(key) = self.key_or_eol(start) {
                         return self.mapping_or_nul(s, start, key);
                     }
 
                     // NB: calling `key_or_eol` will have consumed up until end
                     // of line for us, so use the current span as the production
-                    // string.
+                    // string, apart from whitespace around a separator or at
+                    // the end of the line.
+                    self.trim_end(start);
                     let string = self.string(start);
                     (
                         if string == b"~" {
-- 
2.43.0


From 4c61208ea6f3346013c2720424577071e5ea7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 12/31] fix: make write_to omit the prefix of empty values like
 Display does

An emptied or newly made block collection, and an empty null, were displayed
without the whitespace in front of them but written with it.
---
 src/yaml/document.rs |  4 +++-
 src/yaml/raw.rs      | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..4a680c1 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -268,7 +268,9 @@ impl Document {
         O: io::Write,
     {
         output.write_all(self.data.prefix(self.root))?;
-        self.data.raw(self.root).write_to(&self.data, &mut output)?;
+        self.data
+            .raw(self.root)
+            .write_to(&self.data, &mut output, None)?;
         output.write_all(self.data.str(self.suffix))?;
         Ok(())
     }
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index e6fa770..ae75359 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -279,10 +279,15 @@ impl Raw {
         Ok(())
     }
 
-    pub(crate) fn write_to<O>(&self, data: &Data, o: &mut O) -> io::Result<()>
+    pub(crate) fn write_to<O>(&self, data: &Data, o: &mut O, prefix: Option<Id>) -> io::Result<()>
     where
         O: ?Sized + io::Write,
     {
+        // Just like when displaying, the prefix goes with something to write.
+        if let (Some(id), false) = (prefix, self.is_blank()) {
+            o.write_all(data.prefix(id))?;
+        }
+
         match self {
             Raw::Null(raw) => {
                 raw.write_to(data, o)?;
@@ -313,6 +318,16 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if there is nothing to write for the value.
+    fn is_blank(&self) -> bool {
+        match self {
+            Self::Null(Null::Empty) => true,
+            Self::Sequence(raw) => self.is_tabular() && raw.items.is_empty(),
+            Self::Mapping(raw) => self.is_tabular() && raw.items.is_empty(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -856,8 +871,7 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        data.raw(self.value).write_to(data, o, Some(self.value))?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
@@ -1003,8 +1017,7 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        data.raw(self.value).write_to(data, o, Some(self.value))?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
-- 
2.43.0


From 7ce8f10782950fb11d13d582c11643dff394ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 13/31] fix: parse empty values as null, and nest what follows
 them correctly

An empty value at the end of the input or in an inline collection was read as
an empty string, a lone dash as a string, and an empty sequence item swallowed
the items after it. A null which is replaced also ran into what precedes it,
as in a:5, since it had no prefix of its own.
---
 src/yaml/parsing.rs | 76 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index f350e2c..b6cfa97 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -38,6 +38,7 @@ struct State {
     inline: bool,
     tabular: bool,
     parent_indent: Option<usize>,
+    sequence_indent: Option<usize>,
 }
 
 impl State {
@@ -49,6 +50,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            sequence_indent: None,
         }
     }
 
@@ -83,6 +85,15 @@ impl State {
             ..self
         }
     }
+
+    /// The least indentation of a nested sequence.
+    #[inline]
+    fn with_sequence_indent(self, indent: usize) -> Self {
+        Self {
+            sequence_indent: Some(indent),
+            ..self
+        }
+    }
 }
 
 /// A YAML parser.
@@ -347,6 +358,20 @@ impl<'a> Parser<'a> {
             .insert(Raw::Null(raw::Null::Empty), prefix, parent)
     }
 
+    /// Insert an empty value, and leave the whitespace in front of where it
+    /// would have been to whatever comes next.
+    ///
+    /// Its own prefix is not written while it is empty, but is what separates
+    /// a value it is replaced with.
+    fn empty(&mut self, s: &State) -> (Id, Option<StringId>) {
+        if s.parent.is_none() {
+            return (self.placeholder(s.prefix, None), None);
+        }
+
+        let prefix = self.data.insert_str(" ");
+        (self.placeholder(prefix, s.parent), Some(s.prefix))
+    }
+
     /// Read a double-quoted string.
     fn single_quoted(&mut self) -> raw::String {
         let original = self.n;
@@ -664,13 +689,21 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse a sequence.
-    fn sequence(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+    ///
+    /// If the indentation level is that of an outer sequence, process this as a
+    /// nul.
+    fn sequence_or_nul(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+        let indent = self.indent();
+
+        if matches!(s.sequence_indent, Some(i) if i > indent) {
+            return Ok(self.empty(s));
+        }
+
         let empty = self.data.insert_str("");
         let mapping_id = self.placeholder(s.prefix, s.parent);
 
         let mut items = Vec::new();
         let mut previous_ws = None;
-        let indent = self.indent();
 
         loop {
             let item_prefix = previous_ws.take().unwrap_or(empty);
@@ -679,8 +712,13 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent)
+                    .with_sequence_indent(indent.saturating_add(1)),
+            )?;
 
             self.data.replace(
                 item_id,
@@ -720,24 +758,22 @@ impl<'a> Parser<'a> {
         mut start: usize,
         key: raw::String,
     ) -> Result<(Id, Option<StringId>)> {
-        let empty = self.data.insert_str("");
-        let mapping_id = self.placeholder(s.prefix, s.parent);
-
-        let mut items = Vec::new();
-        let mut previous_ws = None;
-        let mut current_key = Some(key);
-
         let indent = self.indent_from(start);
 
         // Finding a mapping on a smaller indentation level than the parent
         // indentation means that we've encountered a nul value and need to rewind parsing.
         if matches!(s.parent_indent, Some(i) if i >= indent) {
             self.n = start;
-            self.data
-                .replace_with(mapping_id, empty, Raw::Null(raw::Null::Empty));
-            return Ok((mapping_id, Some(s.prefix)));
+            return Ok(self.empty(s));
         }
 
+        let empty = self.data.insert_str("");
+        let mapping_id = self.placeholder(s.prefix, s.parent);
+
+        let mut items = Vec::new();
+        let mut previous_ws = None;
+        let mut current_key = Some(key);
+
         while let Some(key) = current_key.take() {
             if !matches!(self.peek1(), b':') {
                 self.bump(1);
@@ -754,7 +790,8 @@ impl<'a> Parser<'a> {
                 &State::new(value_prefix)
                     .with_parent(item_id)
                     .with_tabular()
-                    .with_parent_indent(indent),
+                    .with_parent_indent(indent)
+                    .with_sequence_indent(indent),
             )?;
 
             self.data.replace(
@@ -944,8 +981,8 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
-            [b'-', ws!()] if !s.inline => {
-                return self.sequence(s);
+            [b'-', ws!(EOF)] if !s.inline => {
+                return self.sequence_or_nul(s);
             }
             [b'"' | b'\'', _] => {
                 let start = self.n;
@@ -996,6 +1033,11 @@ impl<'a> Parser<'a> {
                     // the end of the line.
                     self.trim_end(start);
                     let string = self.string(start);
+
+                    if string.is_empty() {
+                        return Ok(self.empty(s));
+                    }
+
                     (
                         if string == b"~" {
                             Raw::Null(raw::Null::Tilde)
-- 
2.43.0


From d457d83bf36b0e83190551aa51e81a2a0522c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 14/31] fix: indent a collection made in the first item of a
 nested sequence

The indentation was taken from the prefix of the item, which is empty for the
first item, so what followed the first entry was indented too little.
---
 src/yaml/raw.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ae75359..ffafa04 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -89,10 +89,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some(Raw::SequenceItem(..)) = parent.map(|id| data.raw(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From aee480fc1b7441cf20a01d44ba2083bd3bd9d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 15/31] fix: indent a block set on a nested value relative to
 its container

The indentation was derived from the whitespace in front of the value, usually
a single space, so a block set inside of a nested collection was indented less
than the collection and did not read back.
---
 src/yaml/mapping/mapping_mut.rs   |  3 ++-
 src/yaml/raw.rs                   | 38 +++++++++++++++++++------------
 src/yaml/sequence/sequence_mut.rs |  3 ++-
 src/yaml/value_mut.rs             |  3 ++-
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 9451b5c..9d76f07 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -656,7 +656,8 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let indent = raw::inner_block_indent(self.data, self.id);
+        let value = raw::new_block(self.data, indent, iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ffafa04..c19d1d6 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -3,7 +3,7 @@ use std::io;
 use std::iter;
 use std::mem;
 
-use bstr::{BStr, ByteSlice};
+use bstr::ByteSlice;
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 
@@ -134,24 +134,33 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Get the indentation of block contents inside of the collection.
+pub(crate) fn inner_block_indent(data: &Data, id: Id) -> usize {
+    let indent = match data.raw(id) {
+        Raw::Mapping(raw) => raw.indent,
+        Raw::Sequence(raw) => raw.indent,
+        _ => 0,
+    };
+
+    indent.saturating_add(2)
+}
+
+/// Get the indentation of block contents in place of the given value.
+pub(crate) fn block_indent(data: &Data, id: Id) -> usize {
+    let layout = data.layout(id);
+
+    match layout.parent.and_then(|id| data.layout(id).parent) {
+        Some(id) => inner_block_indent(data, id),
+        None => self::count_indent(data.str(layout.prefix)).saturating_add(2),
+    }
+}
+
 /// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+pub(crate) fn new_block<I>(data: &mut Data, indent: usize, iter: I, block: Block) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
 {
-    let (indent, prefix) = match data.raw(id) {
-        Raw::Mapping(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        Raw::Sequence(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        _ => {
-            let prefix = data.str(data.layout(id).prefix);
-
-            let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
-
-            (2, &prefix[n..])
-        }
-    };
-
     let mut original = Vec::new();
     let mut out = Vec::new();
 
@@ -167,7 +176,6 @@ where
 
     while let Some(part) = it.next() {
         original.push(NEWLINE);
-        original.extend_from_slice(prefix.as_bytes());
         original.resize(original.len() + indent, SPACE);
         original.extend(part.as_ref().as_bytes());
         out.extend(part.as_ref().as_bytes());
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 76d4c69..7f9d848 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -545,7 +545,8 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let indent = raw::inner_block_indent(self.data, self.id);
+        let value = raw::new_block(self.data, indent, iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..88c0b36 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -574,7 +574,8 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let indent = raw::block_indent(self.data, self.id);
+        let value = raw::new_block(self.data, indent, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From fde583b5aa2130b54a7ff251663ff40b6def5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 16/31] fix: edit inline collections inline

A collection made inside of an inline one was written in block form, which
cannot be nested there, and an entry added to an inline collection was put at
the start of a line of its own, regardless of the indentation.
---
 src/yaml/mapping/mapping_mut.rs   |  4 ++
 src/yaml/raw.rs                   | 20 +++++++++
 src/yaml/sequence/sequence_mut.rs |  5 +++
 src/yaml/value_mut.rs             | 72 ++++++++++++++++++++++---------
 4 files changed, 81 insertions(+), 20 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 9d76f07..6dc7715 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -138,6 +138,10 @@ impl<'a> MappingMut<'a> {
 
     /// Make insertion prefix.
     fn make_prefix(&mut self) -> StringId {
+        if self.data.raw(self.id).is_inline() {
+            return self.data.insert_str(" ");
+        }
+
         let mut out = Vec::new();
         out.push(raw::NEWLINE);
         out.resize(
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index c19d1d6..22176f4 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -32,6 +32,13 @@ pub(crate) fn count_indent(string: &[u8]) -> usize {
     indent(string).chars().count()
 }
 
+/// Test if the given value is an element of an inline collection.
+pub(crate) fn inside_inline(data: &Data, id: Id) -> bool {
+    let parent = data.layout(id).parent;
+    let container = parent.and_then(|id| data.layout(id).parent);
+    container.is_some_and(|id| data.raw(id).is_inline())
+}
+
 /// Construct a raw kind associated with booleans.
 pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
     let string = data.insert_str(if value { "true" } else { "false" });
@@ -334,6 +341,19 @@ impl Raw {
         }
     }
 
+    pub(crate) fn is_inline(&self) -> bool {
+        matches!(
+            self,
+            Self::Sequence(Sequence {
+                kind: SequenceKind::Inline { .. },
+                ..
+            }) | Self::Mapping(Mapping {
+                kind: MappingKind::Inline { .. },
+                ..
+            })
+        )
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 7f9d848..ab13df1 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -92,6 +92,10 @@ impl<'a> SequenceMut<'a> {
 
     /// Make insertion prefix.
     fn make_prefix(&mut self) -> StringId {
+        if self.data.raw(self.id).is_inline() {
+            return self.data.insert_str(" ");
+        }
+
         let mut out = Vec::new();
         out.push(raw::NEWLINE);
         out.resize(
@@ -114,6 +118,7 @@ impl<'a> SequenceMut<'a> {
             .insert(Raw::Null(raw::Null::Empty), item_prefix, Some(self.id));
 
         let value_prefix = match separator {
+            Separator::Auto if self.data.raw(self.id).is_inline() => self.data.insert_str(""),
             Separator::Auto => match self.data.sequence(self.id).items.last() {
                 Some(last) => {
                     self.data
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 88c0b36..06f3496 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -692,17 +692,33 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_mapping(self) -> MappingMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Mapping(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            if raw::inside_inline(self.data, self.id) {
+                let suffix = self.data.insert_str("");
 
-            self.data.replace_with(
-                self.id,
-                prefix,
-                Raw::Mapping(raw::Mapping {
-                    indent,
-                    kind: raw::MappingKind::Mapping,
-                    items: Vec::new(),
-                }),
-            );
+                self.data.replace(
+                    self.id,
+                    raw::Mapping {
+                        indent: 0,
+                        kind: raw::MappingKind::Inline {
+                            trailing: false,
+                            suffix,
+                        },
+                        items: Vec::new(),
+                    },
+                );
+            } else {
+                let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+
+                self.data.replace_with(
+                    self.id,
+                    prefix,
+                    Raw::Mapping(raw::Mapping {
+                        indent,
+                        kind: raw::MappingKind::Mapping,
+                        items: Vec::new(),
+                    }),
+                );
+            }
         }
 
         MappingMut::new(self.data, self.id)
@@ -758,17 +774,33 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_sequence(self) -> SequenceMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Sequence(..)) {
-            let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            if raw::inside_inline(self.data, self.id) {
+                let suffix = self.data.insert_str("");
+
+                self.data.replace(
+                    self.id,
+                    raw::Sequence {
+                        indent: 0,
+                        kind: raw::SequenceKind::Inline {
+                            trailing: false,
+                            suffix,
+                        },
+                        items: Vec::new(),
+                    },
+                );
+            } else {
+                let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
 
-            self.data.replace_with(
-                self.id,
-                prefix,
-                Raw::Sequence(raw::Sequence {
-                    indent,
-                    kind: raw::SequenceKind::Mapping,
-                    items: Vec::new(),
-                }),
-            );
+                self.data.replace_with(
+                    self.id,
+                    prefix,
+                    Raw::Sequence(raw::Sequence {
+                        indent,
+                        kind: raw::SequenceKind::Mapping,
+                        items: Vec::new(),
+                    }),
+                );
+            }
         }
 
         SequenceMut::new(self.data, self.id)
-- 
2.43.0


From 4313911d6d8f13c8d2a6240117b7876a03d1a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 17/31] fix: quote strings which would not read back as
 themselves

Among others the empty string, keywords in any case, a tilde, surrounding
spaces, negative numbers, and leading indicators were written bare and read
back as something else, as were separators in inline collections.
---
 src/yaml/mapping/mapping_mut.rs   |  3 +-
 src/yaml/raw.rs                   | 72 ++++++++++++++++++++++++-------
 src/yaml/sequence/sequence_mut.rs |  3 +-
 src/yaml/value_mut.rs             |  3 +-
 4 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 6dc7715..d4dbf18 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -541,7 +541,8 @@ impl<'a> MappingMut<'a> {
         K: AsRef<[u8]>,
         S: AsRef<str>,
     {
-        let string = new_string(self.data, string);
+        let inline = self.data.raw(self.id).is_inline();
+        let string = new_string(self.data, string, inline);
         self.inner_insert(key.as_ref(), Separator::Auto, string);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 22176f4..d8cace3 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
-use std::mem;
 
 use bstr::ByteSlice;
 #[cfg(feature = "serde-edits")]
@@ -46,11 +45,11 @@ pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
 }
 
 /// Construct a raw kind associated with a string.
-pub(crate) fn new_string<S>(data: &mut Data, string: S) -> Raw
+pub(crate) fn new_string<S>(data: &mut Data, string: S, inline: bool) -> Raw
 where
     S: AsRef<str>,
 {
-    let kind = RawStringKind::detect(string.as_ref());
+    let kind = RawStringKind::detect(string.as_ref(), inline);
     let string = data.insert_str(string.as_ref());
     Raw::String(String::new(kind, string, string))
 }
@@ -521,28 +520,26 @@ pub(crate) enum RawStringKind {
 }
 
 impl RawStringKind {
-    /// Detect the appropriate kind to use for the given string.
-    pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
-            return RawStringKind::Single;
-        }
-
-        let mut kind = RawStringKind::Bare;
-        let mut first = true;
+    /// Detect the appropriate kind to use for the given string, which might be
+    /// `inline` in a collection.
+    pub(crate) fn detect(string: &str, inline: bool) -> RawStringKind {
+        let mut kind = if Self::is_plain(string) {
+            RawStringKind::Bare
+        } else {
+            RawStringKind::Single
+        };
 
         for c in string.chars() {
-            let first = mem::take(&mut first);
-
             match c {
-                '0'..='9' if first => {
-                    kind = RawStringKind::Single;
-                }
                 '\'' => {
                     return RawStringKind::Double;
                 }
                 ':' => {
                     kind = RawStringKind::Single;
                 }
+                ',' | '[' | ']' | '{' | '}' if inline => {
+                    kind = RawStringKind::Single;
+                }
                 b if b.is_control() => {
                     return RawStringKind::Double;
                 }
@@ -552,6 +549,49 @@ impl RawStringKind {
 
         kind
     }
+
+    /// Test if the string as a whole would be read back as a string without
+    /// quotes around it.
+    fn is_plain(string: &str) -> bool {
+        let mut it = string.chars();
+
+        let (Some(first), second) = (it.next(), it.next()) else {
+            return false;
+        };
+
+        let start = match first {
+            '0'..='9'
+            | ' '
+            | '"'
+            | '['
+            | ']'
+            | '{'
+            | '}'
+            | ','
+            | '#'
+            | '&'
+            | '*'
+            | '!'
+            | '|'
+            | '>'
+            | '%'
+            | '@'
+            | '`' => false,
+            // A sequence item, start of document, or a number.
+            '-' => !matches!(second, None | Some(' ' | '-' | '.' | '0'..='9')),
+            // A number, or end of document.
+            '.' => !matches!(second, None | Some('.' | '0'..='9')),
+            _ => true,
+        };
+
+        start
+            && !string.ends_with(' ')
+            && !string.contains(" #")
+            && string != "~"
+            && !["null", "true", "false"]
+                .iter()
+                .any(|keyword| string.eq_ignore_ascii_case(keyword))
+    }
 }
 
 /// A YAML string.
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index ab13df1..16feabe 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -432,7 +432,8 @@ impl<'a> SequenceMut<'a> {
     where
         S: AsRef<str>,
     {
-        let string = raw::new_string(self.data, string);
+        let inline = self.data.raw(self.id).is_inline();
+        let string = raw::new_string(self.data, string, inline);
         self.inner_push(Separator::Auto, string);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 06f3496..6860f1b 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -442,7 +442,8 @@ impl<'a> ValueMut<'a> {
     where
         S: AsRef<str>,
     {
-        let value = raw::new_string(self.data, string);
+        let inline = raw::inside_inline(self.data, self.id);
+        let value = raw::new_string(self.data, string, inline);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From b15b0817a9d93e125a9706d5a689c0073d567f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:24 +0000
Subject: [PATCH 18/31] fix: quote inserted keys which would not read back as
 themselves

---
 src/yaml/mapping/mapping_mut.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index d4dbf18..6c9d58c 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -1,7 +1,9 @@
 use core::mem;
 
+use bstr::ByteSlice;
+
 use crate::yaml::data::{Data, Id, StringId};
-use crate::yaml::raw::{self, new_bool, new_string, Raw};
+use crate::yaml::raw::{self, new_bool, new_string, Raw, RawStringKind};
 use crate::yaml::{Block, Mapping, Separator, ValueMut};
 
 /// Mutator for a mapping.
@@ -153,6 +155,11 @@ impl<'a> MappingMut<'a> {
 
     /// Insert a value into the mapping.
     fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let kind = match key.to_str() {
+            Ok(key) => RawStringKind::detect(key, self.data.raw(self.id).is_inline()),
+            Err(..) => RawStringKind::Bare,
+        };
+
         let key = self.data.insert_str(key);
 
         if let Some(id) = self
@@ -168,7 +175,7 @@ impl<'a> MappingMut<'a> {
             return id;
         }
 
-        let key = raw::String::new(raw::RawStringKind::Bare, key, key);
+        let key = raw::String::new(kind, key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
             self.make_prefix()
-- 
2.43.0


From 23c3c735408eb1616ed92622e86f0b8ece3e6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 19/31] fix: end a block scalar at the indentation of its
 container, and keep its inner whitespace

---
 src/yaml/parsing.rs | 84 +++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index b6cfa97..dfc2b83 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -909,8 +909,12 @@ impl<'a> Parser<'a> {
     }
 
     /// Process a block as a string.
+    ///
+    /// A block consists of the lines which are indented at least as much as the
+    /// first one of them, and more than what contains the block.
     fn block(
         &mut self,
+        s: &State,
         n: usize,
         join: u8,
         folded: bool,
@@ -922,59 +926,80 @@ impl<'a> Parser<'a> {
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
-        let (mut ws, mut nl) = self.ws_nl();
-
-        if nl == 0 {
-            self.find(raw::NEWLINE);
-            let out = self.input.get(start..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+        self.find(raw::NEWLINE);
 
-            (ws, nl) = self.ws_nl();
+        let header = match self.string(start).trim() {
+            [b'#', ..] => &[][..],
+            header => header,
+        };
 
-            if !self.is_eof() {
-                self.scratch.push(join);
-            }
-        }
+        self.scratch.extend_from_slice(header);
 
+        let least = s.parent_indent.map_or(0, |indent| indent.saturating_add(1));
+        let mut indent = None;
         let mut end = self.n;
-        let indent = self.indent();
+        let mut nl = 0usize;
 
         while !self.is_eof() {
-            let s = self.n;
+            self.bump(1);
+            nl = nl.saturating_add(1);
+
+            let from = self.n;
             self.find(raw::NEWLINE);
-            let out = self.input.get(s..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+            let line = self.string(from);
 
-            end = self.n;
-            (ws, nl) = self.ws_nl();
+            if line.trim().is_empty() {
+                continue;
+            }
+
+            let line_indent = line.iter().take_while(|&&b| b == raw::SPACE).count();
 
-            if self.indent() < indent {
+            if line_indent < indent.unwrap_or(least) {
                 break;
             }
 
-            for _ in 0..if folded { 1 } else { nl } {
-                self.scratch.push(join);
-            }
+            let joins = match indent {
+                Some(..) if folded => 1,
+                Some(..) => nl,
+                None if !header.is_empty() => 1,
+                None if folded => 0,
+                None => nl.saturating_sub(1),
+            };
+
+            let indent = *indent.get_or_insert(line_indent);
+
+            self.scratch.resize(self.scratch.len() + joins, join);
+
+            let out = if folded {
+                line.trim()
+            } else {
+                line.get(indent..).unwrap_or_default()
+            };
+
+            self.scratch
+                .extend_from_slice(out.strip_suffix(b"\r").unwrap_or(out));
+
+            end = self.n;
+            nl = 0;
         }
 
-        for _ in 0..if chomp { nl } else { Default::default() } {
-            self.scratch.push(raw::NEWLINE);
+        // NB: whatever follows the block does not belong to it.
+        self.n = end;
 
-            if clip {
-                break;
-            }
+        if chomp && !self.scratch.is_empty() {
+            let nl = if clip { nl.min(1) } else { nl };
+            self.scratch.resize(self.scratch.len() + nl, raw::NEWLINE);
         }
 
         let string = self.data.insert_str(&self.scratch);
         self.scratch.clear();
 
-        let out = self.input.get(start..end).unwrap_or_default();
-        let original = self.data.insert_str(out);
+        let original = self.data.insert_str(self.string(start));
 
         let kind = raw::RawStringKind::Multiline { prefix };
         (
             Raw::String(raw::String::new(kind, string, original)),
-            Some(ws),
+            Some(self.ws()),
         )
     }
 
@@ -1003,6 +1028,7 @@ impl<'a> Parser<'a> {
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
             [a @ (b'>' | b'|'), b] => self.block(
+                s,
                 matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
-- 
2.43.0


From dfa750773e4d4246ca476dafb51bb04011d92b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 20/31] fix: serialize and deserialize numbers which are out of
 range of their type

---
 src/yaml/serde/de.rs  | 103 +++++++++++++++++++++++++++++++++++++-----
 src/yaml/serde/ser.rs |  43 +++++++++++++-----
 2 files changed, 122 insertions(+), 24 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..29286cd 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -25,6 +25,27 @@ impl<'de, 'a: 'de> IntoDeserializer<'de, Error> for Value<'a> {
     }
 }
 
+impl<'de> Value<'de> {
+    /// Deserialize a number which doesn't fit in the type it's expected to.
+    fn deserialize_number<V>(self, visitor: V) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        if let Some(value) = self.as_u128() {
+            return visitor.visit_u128(value);
+        }
+
+        if let Some(value) = self.as_i128() {
+            return visitor.visit_i128(value);
+        }
+
+        match self.as_f64() {
+            Some(value) => visitor.visit_f64(value),
+            None => Err(Error::custom("number out of range")),
+        }
+    }
+}
+
 /// [`Deserializer`] implementation for [`Document`].
 ///
 /// This allows a [`Document`] to be deserialized from any compatible type.
@@ -40,18 +61,54 @@ impl<'de> Deserializer<'de> for Value<'de> {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
             raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
+                RawNumberHint::Float32 => match self.as_f32() {
+                    Some(value) => visitor.visit_f32(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Float64 => match self.as_f64() {
+                    Some(value) => visitor.visit_f64(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Unsigned8 => match self.as_u8() {
+                    Some(value) => visitor.visit_u8(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Unsigned16 => match self.as_u16() {
+                    Some(value) => visitor.visit_u16(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Unsigned32 => match self.as_u32() {
+                    Some(value) => visitor.visit_u32(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Unsigned64 => match self.as_u64() {
+                    Some(value) => visitor.visit_u64(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Unsigned128 => match self.as_u128() {
+                    Some(value) => visitor.visit_u128(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Signed8 => match self.as_i8() {
+                    Some(value) => visitor.visit_i8(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Signed16 => match self.as_i16() {
+                    Some(value) => visitor.visit_i16(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Signed32 => match self.as_i32() {
+                    Some(value) => visitor.visit_i32(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Signed64 => match self.as_i64() {
+                    Some(value) => visitor.visit_i64(value),
+                    None => self.deserialize_number(visitor),
+                },
+                RawNumberHint::Signed128 => match self.as_i128() {
+                    Some(value) => visitor.visit_i128(value),
+                    None => self.deserialize_number(visitor),
+                },
             },
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
@@ -127,6 +184,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -171,6 +239,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..b3ae9e3 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -7,6 +7,25 @@ use crate::yaml::raw;
 use crate::yaml::serde_hint::RawNumberHint;
 use crate::yaml::{Mapping, Sequence, Value};
 
+/// Serialize a number which doesn't fit in the type it's expected to.
+fn serialize_number<S>(value: &Value<'_>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if let Some(value) = value.as_u128() {
+        return serializer.serialize_u128(value);
+    }
+
+    if let Some(value) = value.as_i128() {
+        return serializer.serialize_i128(value);
+    }
+
+    match value.as_f64() {
+        Some(value) => serializer.serialize_f64(value),
+        None => Err(S::Error::custom("number out of range")),
+    }
+}
+
 impl Serialize for Value<'_> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
@@ -18,51 +37,51 @@ impl Serialize for Value<'_> {
             raw::Raw::Number(raw) => match raw.hint {
                 RawNumberHint::Float32 => match self.as_f32() {
                     Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Float64 => match self.as_f64() {
                     Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned8 => match self.as_u8() {
                     Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned16 => match self.as_u16() {
                     Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned32 => match self.as_u32() {
                     Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned64 => match self.as_u64() {
                     Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned128 => match self.as_u128() {
                     Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed8 => match self.as_i8() {
                     Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed16 => match self.as_i16() {
                     Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed32 => match self.as_i32() {
                     Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed64 => match self.as_i64() {
                     Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed128 => match self.as_i128() {
                     Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
             },
             raw::Raw::String(raw) => {
-- 
2.43.0


From a92cc9181148a1132e515481f8b2d52d43805d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 21/31] fix: quote block strings put in an inline collection

---
 src/yaml/mapping/mapping_mut.rs   |  3 ++-
 src/yaml/raw.rs                   | 17 +++++++++++++++--
 src/yaml/sequence/sequence_mut.rs |  3 ++-
 src/yaml/value_mut.rs             |  3 ++-
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 6c9d58c..ff4c94e 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -669,7 +669,8 @@ impl<'a> MappingMut<'a> {
         I::Item: AsRef<str>,
     {
         let indent = raw::inner_block_indent(self.data, self.id);
-        let value = raw::new_block(self.data, indent, iter, block);
+        let inline = self.data.raw(self.id).is_inline();
+        let value = raw::new_block(self.data, indent, inline, iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index d8cace3..bae2b4a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -162,7 +162,16 @@ pub(crate) fn block_indent(data: &Data, id: Id) -> usize {
 }
 
 /// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, indent: usize, iter: I, block: Block) -> Raw
+///
+/// There are no blocks in `inline` collections, where the same string is quoted
+/// instead.
+pub(crate) fn new_block<I>(
+    data: &mut Data,
+    indent: usize,
+    inline: bool,
+    iter: I,
+    block: Block,
+) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
@@ -195,9 +204,13 @@ where
         out.push(NEWLINE);
     }
 
-    let original = data.insert_str(&original);
     let string = data.insert_str(out);
 
+    if inline {
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
+    let original = data.insert_str(&original);
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 16feabe..780c188 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -552,7 +552,8 @@ impl<'a> SequenceMut<'a> {
         I::Item: AsRef<str>,
     {
         let indent = raw::inner_block_indent(self.data, self.id);
-        let value = raw::new_block(self.data, indent, iter, block);
+        let inline = self.data.raw(self.id).is_inline();
+        let value = raw::new_block(self.data, indent, inline, iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 6860f1b..aed1e87 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -576,7 +576,8 @@ impl<'a> ValueMut<'a> {
         I::Item: AsRef<str>,
     {
         let indent = raw::block_indent(self.data, self.id);
-        let value = raw::new_block(self.data, indent, iter, block);
+        let inline = raw::inside_inline(self.data, self.id);
+        let value = raw::new_block(self.data, indent, inline, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From db306745e9af770117546b1c1820f343b0749bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 22/31] fix: do not repeat the comment of the last item when
 pushing

---
 src/yaml/sequence/sequence_mut.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 780c188..96c1f14 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -121,9 +121,15 @@ impl<'a> SequenceMut<'a> {
             Separator::Auto if self.data.raw(self.id).is_inline() => self.data.insert_str(""),
             Separator::Auto => match self.data.sequence(self.id).items.last() {
                 Some(last) => {
-                    self.data
-                        .layout(self.data.sequence_item(*last).value)
-                        .prefix
+                    let value = self.data.sequence_item(*last).value;
+                    let prefix = self.data.layout(value).prefix;
+
+                    // Comments belong to the value which they are in front of.
+                    if self.data.str(prefix).contains(&b'#') {
+                        self.data.insert_str(" ")
+                    } else {
+                        prefix
+                    }
                 }
                 None => self.data.insert_str(" "),
             },
-- 
2.43.0


From 3c2526f613be185e65af575476df83525eb4d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 23/31] fix: do not include comments in bare scalars

---
 src/yaml/parsing.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index dfc2b83..d6cd880 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -213,10 +213,10 @@ impl<'a> Parser<'a> {
     }
 
     /// Find the given character.
-    fn find2(&mut self, a: u8, b: u8) {
+    fn find3(&mut self, a: u8, b: u8, c: u8) {
         let input = self.input.get(self.n..).unwrap_or_default();
 
-        if let Some(n) = memchr::memchr2(a, b, input) {
+        if let Some(n) = memchr::memchr3(a, b, c, input) {
             self.bump(n);
         } else {
             self.n = self.input.len();
@@ -249,7 +249,18 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
-    /// Test if current position contains nothing but whitespace until we reach a line end.
+    /// Test if current position is that of a comment, which has to be preceded
+    /// by whitespace.
+    fn is_comment(&self) -> bool {
+        let before = self
+            .n
+            .checked_sub(1)
+            .and_then(|n| self.input.get(n).copied());
+        matches!((before, self.peek1()), (Some(ws!()), b'#'))
+    }
+
+    /// Test if current position contains nothing but whitespace until we reach
+    /// a line end or comment.
     fn is_eol(&self) -> bool {
         let mut n = self.n;
 
@@ -261,6 +272,9 @@ impl<'a> Parser<'a> {
                 other_ws!() => {
                     n = n.wrapping_add(1);
                 }
+                b'#' => {
+                    return n > self.n;
+                }
                 _ => {
                     return false;
                 }
@@ -839,15 +853,18 @@ impl<'a> Parser<'a> {
         raw::count_indent(string)
     }
 
-    /// Process a key up until `:` or end of the current line.
+    /// Process a key up until `:` or end of the current line, or a comment.
     fn key_or_eol(&mut self, start: usize) -> Option<raw::String> {
         loop {
-            self.find2(b':', raw::NEWLINE);
+            self.find3(b':', b'#', raw::NEWLINE);
 
             match self.peek() {
                 [raw::NEWLINE | EOF, _] => {
                     return None;
                 }
+                [b'#', _] if self.is_comment() => {
+                    return None;
+                }
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
@@ -1044,9 +1061,10 @@ impl<'a> Parser<'a> {
                     }
 
                     if s.inline {
-                        // Seek until we find a control character, since we're
-                        // simply treating the current segment as a string.
-                        while !matches!(self.peek1(), ctl!()) {
+                        // Seek until we find a control character or comment,
+                        // since we're simply treating the current segment as a
+                        // string.
+                        while !matches!(self.peek1(), ctl!()) && !self.is_comment() {
                             self.bump(1);
                         }
                     } else if let Some(key) = self.key_or_eol(start) {
@@ -1054,9 +1072,9 @@ impl<'a> Parser<'a> {
                     }
 
                     // NB: calling `key_or_eol` will have consumed up until end
-                    // of line for us, so use the current span as the production
-                    // string, apart from whitespace around a separator or at
-                    // the end of the line.
+                    // of line or a comment for us, so use the current span as the
+                    // production string, apart from whitespace around a
+                    // separator or at the end of the line.
                     self.trim_end(start);
                     let string = self.string(start);
 
@@ -1103,6 +1121,7 @@ impl<'a> Parser<'a> {
             return Ok(Some(key));
         }
 
+        self.find(raw::NEWLINE);
         Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator))
     }
 }
-- 
2.43.0


From 8b1b2dd85ca7f2396dab67294ea4dbca18ed89de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:20 +0000
Subject: [PATCH 24/31] fix: keep comments on the same line together with their
 value

---
 src/yaml/parsing.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d6cd880..eb31062 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -249,6 +249,15 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
+    /// Split whitespace into what remains of the current line, such as a
+    /// comment, and what comes after it.
+    fn split_line(&mut self, ws: StringId) -> (StringId, StringId) {
+        let string = self.data.str(ws).to_vec();
+        let n = memchr::memchr(raw::NEWLINE, &string).unwrap_or(string.len());
+        let (line, rest) = string.split_at(n);
+        (self.data.insert_str(line), self.data.insert_str(rest))
+    }
+
     /// Test if current position is that of a comment, which has to be preceded
     /// by whitespace.
     fn is_comment(&self) -> bool {
@@ -734,18 +743,14 @@ impl<'a> Parser<'a> {
                     .with_sequence_indent(indent.saturating_add(1)),
             )?;
 
-            self.data.replace(
-                item_id,
-                raw::SequenceItem {
-                    value,
-                    suffix: empty,
-                },
-            );
-            items.push(item_id);
-
             let ws = ws.unwrap_or_else(|| self.ws());
+            let (suffix, ws) = self.split_line(ws);
             previous_ws = Some(ws);
 
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
+            items.push(item_id);
+
             if self.indent() != indent || !matches!(self.peek1(), b'-') {
                 break;
             }
@@ -808,19 +813,14 @@ impl<'a> Parser<'a> {
                     .with_sequence_indent(indent),
             )?;
 
-            self.data.replace(
-                item_id,
-                raw::MappingItem {
-                    key,
-                    value,
-                    suffix: empty,
-                },
-            );
-            items.push(item_id);
-
             let ws = ws.unwrap_or_else(|| self.ws());
+            let (suffix, ws) = self.split_line(ws);
             previous_ws = Some(ws);
 
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
+            items.push(item_id);
+
             if self.indent() != indent {
                 break;
             }
-- 
2.43.0


From 914d340f183df6ac734064cfdc4f8d93e035df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 25/31] fix: keep what follows a value on its line apart from a
 block it's set to

---
 src/yaml/mapping/mapping_mut.rs   |  2 +-
 src/yaml/raw.rs                   | 23 ++++++++++++++++++++++-
 src/yaml/sequence/sequence_mut.rs |  2 +-
 src/yaml/value_mut.rs             |  9 ++++++++-
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index ff4c94e..9805463 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -670,7 +670,7 @@ impl<'a> MappingMut<'a> {
     {
         let indent = raw::inner_block_indent(self.data, self.id);
         let inline = self.data.raw(self.id).is_inline();
-        let value = raw::new_block(self.data, indent, inline, iter, block);
+        let value = raw::new_block(self.data, indent, inline, &[], iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index bae2b4a..b21dd04 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,6 +1,7 @@
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
+use std::mem;
 
 use bstr::ByteSlice;
 #[cfg(feature = "serde-edits")]
@@ -151,6 +152,24 @@ pub(crate) fn inner_block_indent(data: &Data, id: Id) -> usize {
     indent.saturating_add(2)
 }
 
+/// Take the remainder of the line after the given value, which cannot follow
+/// the contents of a block.
+pub(crate) fn take_block_header(data: &mut Data, id: Id) -> Vec<u8> {
+    let empty = data.insert_str("");
+
+    let Some(item) = data.layout(id).parent else {
+        return Vec::new();
+    };
+
+    let suffix = match data.raw_mut(item) {
+        Raw::MappingItem(raw) => mem::replace(&mut raw.suffix, empty),
+        Raw::SequenceItem(raw) => mem::replace(&mut raw.suffix, empty),
+        _ => empty,
+    };
+
+    data.str(suffix).to_vec()
+}
+
 /// Get the indentation of block contents in place of the given value.
 pub(crate) fn block_indent(data: &Data, id: Id) -> usize {
     let layout = data.layout(id);
@@ -164,11 +183,12 @@ pub(crate) fn block_indent(data: &Data, id: Id) -> usize {
 /// Construct a block with the given configuration.
 ///
 /// There are no blocks in `inline` collections, where the same string is quoted
-/// instead.
+/// instead. The `header` is what follows the block indicator on its line.
 pub(crate) fn new_block<I>(
     data: &mut Data,
     indent: usize,
     inline: bool,
+    header: &[u8],
     iter: I,
     block: Block,
 ) -> Raw
@@ -186,6 +206,7 @@ where
 
     original.push(mark);
     original.extend(chomp.as_byte());
+    original.extend(header);
 
     let mut it = iter.into_iter().peekable();
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 96c1f14..b53c681 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -559,7 +559,7 @@ impl<'a> SequenceMut<'a> {
     {
         let indent = raw::inner_block_indent(self.data, self.id);
         let inline = self.data.raw(self.id).is_inline();
-        let value = raw::new_block(self.data, indent, inline, iter, block);
+        let value = raw::new_block(self.data, indent, inline, &[], iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index aed1e87..2f5e7c1 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -577,7 +577,14 @@ impl<'a> ValueMut<'a> {
     {
         let indent = raw::block_indent(self.data, self.id);
         let inline = raw::inside_inline(self.data, self.id);
-        let value = raw::new_block(self.data, indent, inline, iter, block);
+
+        let header = if inline {
+            Vec::new()
+        } else {
+            raw::take_block_header(self.data, self.id)
+        };
+
+        let value = raw::new_block(self.data, indent, inline, &header, iter, block);
         self.data.replace(self.id, value);
     }
 
-- 
2.43.0


From 454f87be7a4ea995023f4388376b23c8215f5ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 26/31] fix: separate an empty value at the end of an inline
 sequence

---
 src/yaml/raw.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b21dd04..fa2ca55 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -866,6 +866,14 @@ pub(crate) struct Sequence {
 }
 
 impl Sequence {
+    /// Test if the last item is written as nothing, which takes a separator for
+    /// it to be there in an inline sequence.
+    fn ends_with_blank(&self, data: &Data) -> bool {
+        self.items
+            .last()
+            .is_some_and(|id| data.raw(data.sequence_item(*id).value).is_blank())
+    }
+
     /// Display the sequence.
     pub(crate) fn display(
         &self,
@@ -902,7 +910,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing && !self.items.is_empty() {
+            if *trailing && !self.items.is_empty() || self.ends_with_blank(data) {
                 write!(f, ",")?;
             }
 
@@ -939,7 +947,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing && !self.items.is_empty() {
+            if *trailing && !self.items.is_empty() || self.ends_with_blank(data) {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From 70f14429e5b20a6872e0f3c760f0e62ed2a2aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 27/31] fix: only trim ascii whitespace from the lines of a
 block scalar

---
 src/yaml/parsing.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index eb31062..a508d09 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -32,6 +32,11 @@ macro_rules! ws {
     };
 }
 
+/// Trim whitespace which is not part of a line.
+fn trim(line: &[u8]) -> &[u8] {
+    line.trim_with(|c| matches!(u8::try_from(c), Ok(ws!())))
+}
+
 struct State {
     prefix: StringId,
     parent: Option<Id>,
@@ -945,7 +950,7 @@ impl<'a> Parser<'a> {
         let start = self.n;
         self.find(raw::NEWLINE);
 
-        let header = match self.string(start).trim() {
+        let header = match trim(self.string(start)) {
             [b'#', ..] => &[][..],
             header => header,
         };
@@ -965,7 +970,7 @@ impl<'a> Parser<'a> {
             self.find(raw::NEWLINE);
             let line = self.string(from);
 
-            if line.trim().is_empty() {
+            if trim(line).is_empty() {
                 continue;
             }
 
@@ -988,7 +993,7 @@ impl<'a> Parser<'a> {
             self.scratch.resize(self.scratch.len() + joins, join);
 
             let out = if folded {
-                line.trim()
+                trim(line)
             } else {
                 line.get(indent..).unwrap_or_default()
             };
-- 
2.43.0


From f5b880186a60a5a4b5bac2724d64c3c8b982fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 28/31] fix: keep what follows a value on its line apart from a
 block inserted over it

---
 src/yaml/mapping/mapping_mut.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 9805463..f993ebf 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -153,6 +153,17 @@ impl<'a> MappingMut<'a> {
         self.data.insert_str(out)
     }
 
+    /// Find the value with the given key.
+    fn find(&self, key: &[u8]) -> Option<Id> {
+        self.data
+            .mapping(self.id)
+            .items
+            .iter()
+            .map(|id| self.data.mapping_item(*id))
+            .find(|item| self.data.str(item.key.id) == key)
+            .map(|item| item.value)
+    }
+
     /// Insert a value into the mapping.
     fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
         let kind = match key.to_str() {
@@ -160,21 +171,12 @@ impl<'a> MappingMut<'a> {
             Err(..) => RawStringKind::Bare,
         };
 
-        let key = self.data.insert_str(key);
-
-        if let Some(id) = self
-            .data
-            .mapping(self.id)
-            .items
-            .iter()
-            .map(|id| self.data.mapping_item(*id))
-            .find(|item| item.key.id == key)
-            .map(|item| item.value)
-        {
+        if let Some(id) = self.find(key) {
             self.data.replace(id, value);
             return id;
         }
 
+        let key = self.data.insert_str(key);
         let key = raw::String::new(kind, key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
@@ -670,7 +672,14 @@ impl<'a> MappingMut<'a> {
     {
         let indent = raw::inner_block_indent(self.data, self.id);
         let inline = self.data.raw(self.id).is_inline();
-        let value = raw::new_block(self.data, indent, inline, &[], iter, block);
+
+        // An existing value might be followed by something on its line.
+        let header = match self.find(key.as_ref()) {
+            Some(id) if !inline => raw::take_block_header(self.data, id),
+            _ => Vec::new(),
+        };
+
+        let value = raw::new_block(self.data, indent, inline, &header, iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
-- 
2.43.0


From 73d50bf5f3b03d3219d58db9229321a564d23555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 29/31] fix: do not wrap integers which are out of range around

---
 src/yaml/number.rs | 48 ++++++++++++++++++++++++++++++++--------------
 src/yaml/value.rs  | 29 ++++++++++++++--------------
 2 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..2534f2c 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -1,12 +1,32 @@
 use core::fmt;
+use core::str::FromStr;
 
 use bstr::{BStr, ByteSlice};
 
 use crate::yaml::data::Data;
 use crate::yaml::raw;
 
+/// Parse the content of a number as a float.
+pub(super) fn parse_float<T>(string: &BStr) -> Option<T>
+where
+    T: lexical_core::FromLexical,
+{
+    lexical_core::parse(string).ok()
+}
+
+/// Parse the content of a number as an integer.
+///
+/// This doesn't use `lexical_core`, which wraps around for some of the integers
+/// that are out of range.
+pub(super) fn parse_integer<T>(string: &BStr) -> Option<T>
+where
+    T: FromStr,
+{
+    string.to_str().ok()?.parse().ok()
+}
+
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -24,7 +44,7 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            $parse(string)
         }
     };
 }
@@ -77,18 +97,18 @@ impl<'a> Number<'a> {
         self.data.str(self.raw.string)
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, parse_float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, parse_float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, parse_integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, parse_integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, parse_integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, parse_integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, parse_integer);
 }
 
 impl fmt::Debug for Number<'_> {
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..61d4394 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -5,6 +5,7 @@ use bstr::{BStr, ByteSlice};
 use serde::{Deserialize, Serialize};
 
 use crate::yaml::data::{Data, Id};
+use crate::yaml::number::{parse_float, parse_integer};
 use crate::yaml::raw::Raw;
 use crate::yaml::{Any, Mapping, Number, Sequence, String};
 
@@ -141,7 +142,7 @@ pub struct Value<'a> {
 }
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $ty:ty, $doc:literal, $lit:literal, $parse:path) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -160,7 +161,7 @@ macro_rules! as_number {
             match self.data.raw(self.id) {
                 Raw::Number(raw) => {
                     let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
+                    $parse(string)
                 }
                 _ => None,
             }
@@ -568,18 +569,18 @@ impl<'a> Value<'a> {
         }
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, f32, "32-bit float", 10.42, parse_float);
+    as_number!(as_f64, f64, "64-bit float", 10.42, parse_float);
+    as_number!(as_u8, u8, "8-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i8, i8, "8-bit signed integer", -42, parse_integer);
+    as_number!(as_u16, u16, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i16, i16, "16-bit signed integer", -42, parse_integer);
+    as_number!(as_u32, u32, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i32, i32, "32-bit signed integer", -42, parse_integer);
+    as_number!(as_u64, u64, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i64, i64, "64-bit signed integer", -42, parse_integer);
+    as_number!(as_u128, u128, "16-bit unsigned integer", 42, parse_integer);
+    as_number!(as_i128, i128, "128-bit signed integer", -42, parse_integer);
 }
 
 impl fmt::Display for Value<'_> {
-- 
2.43.0


From 533b368e406b3a4572276927b52f871f5b612c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 30/31] fix: only take a dash followed by whitespace for the
 next item of a sequence

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index a508d09..9b1db75 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -756,7 +756,7 @@ impl<'a> Parser<'a> {
                 .replace(item_id, raw::SequenceItem { value, suffix });
             items.push(item_id);
 
-            if self.indent() != indent || !matches!(self.peek1(), b'-') {
+            if self.indent() != indent || !matches!(self.peek(), [b'-', ws!(EOF)]) {
                 break;
             }
         }
-- 
2.43.0


From b0e0dfd3ebfa59a15c3ee8f7b012b6f28236e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 31/31] fix: a NUL byte after a key of an inline mapping was
 taken for its colon

---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9b1db75..4f50671 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -888,7 +888,7 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if self.peek1() != b':' {
             return None;
         }
 
-- 
2.43.0

