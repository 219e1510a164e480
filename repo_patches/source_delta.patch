From dec52a4e4f926ff7ef2bb8d6303d7b1c03066b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:48 +0000
Subject: [PATCH 01/26] fix: read the context of MO entries from before the
 separator

---
 rust/src/moparser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..cf4fe29 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -49,10 +49,11 @@ fn maybe_extract_plurals_from_msgid_msgstr<'a>(
 fn maybe_extract_msgctxt_from_msgid(
     msgid: &str,
 ) -> (Cow<'_, str>, Option<String>) {
+    // the context comes before the separator and the message after it
     let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
 
     if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
+        (msgid_tokens[1].into(), Some(msgid_tokens[0].to_string()))
     } else {
         (msgid.into(), None)
     }
-- 
2.43.0


From 21dd2f8e75a485a7233ddc302b99c85e9b1ca460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:17 +0000
Subject: [PATCH 02/26] fix: report MO strings that lie outside of the content

The bytes missing from a truncated file were replaced by NUL characters,
and a buffer of the declared length was allocated before reading.
---
 rust/src/moparser.rs | 60 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index cf4fe29..b66ac90 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -118,8 +118,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -265,25 +264,27 @@ impl MOFileParser<'_> {
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_string(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+                i,
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+                i,
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -324,6 +325,37 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
+    }
+
+    /// Reads a string, which must lie completely inside the content
+    fn parse_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+        index: u32,
+    ) -> Result<Vec<u8>, IOError> {
+        let mut buffer: Vec<u8> = vec![];
+        let complete = self
+            .fhandle
+            .seek(SeekFrom::Start(offset as u64))
+            .and_then(|_| {
+                (&mut self.fhandle)
+                    .take(length as u64)
+                    .read_to_end(&mut buffer)
+            })
+            .map_or(false, |n| n == length as usize);
+        if complete {
+            Ok(buffer)
+        } else {
+            Err(IOError::CorruptedMOData {
+                context: format!(
+                    "reading {} at index {}",
+                    context, index
+                ),
+            })
+        }
     }
 }
 
-- 
2.43.0


From d8f2d6b5e4f0a6f94bc950011c68ee26eae37631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:25 +0000
Subject: [PATCH 03/26] fix: do not panic when a MO path does not exist

---
 rust/src/moparser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index b66ac90..caeeb2c 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -71,7 +71,7 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
@@ -81,7 +81,7 @@ impl MOFileParser<'_> {
                 File::open(&file.options.path_or_content).unwrap(),
             ),
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 92e7d8ced10d5fb7aef3ba0938c3c07aa69499d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:32 +0000
Subject: [PATCH 04/26] fix: parse PO content that is given as bytes

---
 rust/src/file/mod.rs | 2 +-
 rust/src/poparser.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..5c8e7e1 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..2e1a8d8 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -184,8 +184,12 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let options = &self.file.options;
+        let content: Vec<u8> = match &options.byte_content {
+            Some(byte_content) => byte_content.clone(),
+            None => options.path_or_content.clone().into_bytes(),
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From f20fd8772e8ef72c9aa9f421de16c06901d01fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:40 +0000
Subject: [PATCH 05/26] fix: report PO lines that cannot be read

A line that is not valid UTF-8, or a failing read, was taken as the end
of the file and the rest of the content was dropped silently.
---
 rust/src/poparser.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 2e1a8d8..0797965 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -76,14 +76,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = std::io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -199,10 +195,14 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line = match handler.next() {
+            Some(line) => self.check_line_read(line)?,
+            None => "".to_string(),
+        };
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
         for line in handler.by_ref() {
+            let line = self.check_line_read(line)?;
             self.parse_line(&line)?;
         }
 
@@ -251,6 +251,21 @@ impl POFileParser {
         Ok(())
     }
 
+    fn check_line_read(
+        &self,
+        line: std::io::Result<String>,
+    ) -> Result<String, SyntaxError> {
+        line.map_err(|error| SyntaxError::Custom {
+            maybe_filename: MaybeFilename::new(
+                &self.file.options.path_or_content,
+                self.content_is_path,
+            ),
+            line: self.current_line + 1,
+            index: 0,
+            message: error.to_string(),
+        })
+    }
+
     fn tokens_from_line(&self, line: &str) -> Vec<String> {
         let mut tokens: Vec<String> = Vec::with_capacity(3);
         for token in line.split_ascii_whitespace() {
-- 
2.43.0


From 932dc41e17e12d4c3728dec772c013b3d925b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:21 +0000
Subject: [PATCH 06/26] fix: report PO strings without quotes and unexpected
 lines

Both made the parser panic.
---
 rust/src/poparser.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 0797965..802a4f8 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -150,7 +150,20 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                // the line is not allowed at this point
+                None => {
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    })
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
@@ -752,17 +765,19 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
+    // Check if first or last characters are not double quotes
     // to prevent slicing out of bounds
-    let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2
+        || !text.starts_with('"')
+        || !text.ends_with('"')
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
-- 
2.43.0


From 39c4778c4a60ba90b02a7b0658ca0778d5a8ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:28 +0000
Subject: [PATCH 07/26] fix: check the string and the index of msgstr[N] lines

A line without a quoted string made the parser panic and a huge index
made it allocate that number of translations.
---
 rust/src/poparser.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 802a4f8..1566e0c 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -34,6 +34,9 @@ pub enum St {
 // Transitions are generated by the build.rs script
 include!(concat!(env!("OUT_DIR"), "/poparser-transitions.rs"));
 
+/// Highest index accepted in `msgstr[N]` lines
+const MAX_MSGSTR_PLURAL_INDEX: usize = 255;
+
 lazy_static! {
     static ref TRANSITIONS: Transitions = build_transitions();
     static ref KEYWORDS: HashMap<String, &'static St> = {
@@ -358,10 +361,10 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_MSGSTR_PLURAL_INDEX => {
                     self.msgstr_index = index;
                 }
-                Err(_) => {
+                _ => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
                             &self.file.options.path_or_content,
@@ -380,6 +383,20 @@ impl POFileParser {
                 }
             };
 
+            let value = self
+                .current_token
+                .split_once(']')
+                .map_or("", |(_, value)| value.trim_start());
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                self.current_token.chars().count()
+                    - value.chars().count()
+                    + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -636,9 +653,7 @@ fn handle_ms(parser: &mut POFileParser) -> Result<(), SyntaxError> {
 
 fn handle_mx(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let value =
-        &parser.current_token[parser.current_token.find('"').unwrap()
-            + 1
-            ..parser.current_token.len() - 1];
+        &parser.current_token[1..parser.current_token.len() - 1];
     let msgstr_plural_length =
         parser.current_entry.msgstr_plural.len();
     if parser.msgstr_index + 1 > msgstr_plural_length {
-- 
2.43.0


From c2816238752618ac2da8264aea50064bc5d89897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:48 +0000
Subject: [PATCH 08/26] fix: accept a PO metadata entry without msgstr

---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 1566e0c..e813045 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -241,7 +241,7 @@ impl POFileParser {
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
-- 
2.43.0


From caf6312e67ea76f12c0c505486fa4bd459b04ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:48 +0000
Subject: [PATCH 09/26] fix: parse continuation lines of previous messages

Continued previous messages lost their first characters or made the
parser panic, and so did several spaces after the marker.
---
 rust/src/poparser.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index e813045..1ceb8cc 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -431,8 +431,18 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let previous = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    previous,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    line.chars().count() - previous.chars().count()
+                        + 1,
+                )?;
+                self.current_token = previous.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -465,10 +475,15 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            let value = previous[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                line.chars().count() - value.chars().count() + 1,
+            )?;
+            self.current_token = value.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From ce96b204ccacd30dcb7e3f9c5482ea458c2c4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:08 +0000
Subject: [PATCH 10/26] fix: keep the comment prefix on every wrapped line

Wrapped comments were written without prefix, so the file could not be
parsed again, and wrap widths lower than two made the writer panic.
---
 rust/src/entry/poentry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..5226b57 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -96,12 +96,16 @@ impl POEntry {
     ) {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for part in wrap(line, wrapwidth.saturating_sub(2)) {
+                    target.push_str(prefix);
+                    target.push_str(&part);
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From 027bd3be1392c2055a245e6998e5598dcdde0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:17 +0000
Subject: [PATCH 11/26] fix: write every occurrence once when they are wrapped

An occurrence that did not fit in the line was dropped and the previous
ones were repeated in the following line.
---
 rust/src/entry/poentry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 5226b57..9dc2005 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -155,11 +155,11 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
-                } else {
-                    current_line_occs.push(occ);
-                    current_width += occ_width + 1;
+                    current_line_occs.clear();
+                    current_width = 2;
                 }
+                current_line_occs.push(occ);
+                current_width += occ_width + 1;
             }
             if !current_line_occs.is_empty() {
                 let curr_line =
-- 
2.43.0


From f5b78c20764aa612bb515562cafdcbd94c86d61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:34 +0000
Subject: [PATCH 12/26] fix: write the previous plural message with its own
 keyword

It was written as a previous message, followed by an empty line.
---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 9dc2005..99a5bf2 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -213,7 +213,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -221,7 +221,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 01fe9ba6b11e90493b8cc86a5418e11ceebd82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:42 +0000
Subject: [PATCH 13/26] fix: keep trailing whitespace of translations when
 writing PO

---
 rust/src/entry/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..9cda99c 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -76,7 +76,7 @@ fn default_mo_entry_msgstr_formatter(
     POStringField::new(
         "msgstr",
         delflag,
-        msgstr.trim_end(),
+        msgstr,
         "",
         wrapwidth,
     )
-- 
2.43.0


From 454ab0264c092022600514499f55f7f95c72d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:56 +0000
Subject: [PATCH 14/26] fix: use the wrap width of the file to write its
 entries

---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..f55827c 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -398,12 +398,17 @@ impl fmt::Display for POFile {
 
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
+        let wrapwidth = self.options.wrapwidth;
         for entry in &self.entries {
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(wrapwidth),
+                );
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(
+                    &entry.to_string_with_wrapwidth(wrapwidth),
+                );
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From 52e7f3c833168efe4a73b068baa0689f2f39b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:14 +0000
Subject: [PATCH 15/26] fix: measure wrapped lines correctly after wide
 characters

The accumulated width was used as byte position, so texts with wide or
zero-width characters gave lines wider than the wrap width.
---
 rust/src/twrapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..126ea9c 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -17,12 +17,14 @@ fn get_linebreaks(
         .collect();
     let mut ret = vec![];
 
+    let mut next_char_bindex = 0;
     let mut accum_char_bindex = 0;
     let mut accum_char_width = 0; // bindex, width
     let mut last_break_width = 0;
 
     for (lbi, (lb, _)) in linebreaks.iter().enumerate() {
-        let range = accum_char_width..*lb;
+        let range = next_char_bindex..*lb;
+        next_char_bindex = *lb;
         for bindex in range {
             accum_char_width +=
                 char_indices_widths.get(&bindex).unwrap_or(&0);
-- 
2.43.0


From c08b690aeb28263a19f45293ebd902621a636f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:00 +0000
Subject: [PATCH 16/26] fix: never wrap a string inside an escape sequence

A backslash at the end of a quoted line escapes the closing quote for
other readers of PO files.
---
 rust/src/twrapper.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index 126ea9c..fbbe061 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -51,13 +51,26 @@ fn get_linebreaks(
     ret
 }
 
+/// Whether a break at the byte index separates a backslash
+/// from the character that it escapes
+fn splits_escape(text: &str, index: usize) -> bool {
+    let backslashes = text.as_bytes()[..index]
+        .iter()
+        .rev()
+        .take_while(|c| **c == b'\\')
+        .count();
+    index < text.len() && backslashes % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| !splits_escape(text, *lb))
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From 6b3ddf0f575ae6e0d12d29ac5f4714d63edb1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:46 +0000
Subject: [PATCH 17/26] fix: keep empty header lines and write the header
 stably

Empty lines at the start of the header were lost when parsing, and each
write and parse cycle dropped one empty line from its end.
---
 rust/src/file/pofile.rs |  4 +++-
 rust/src/poparser.rs    | 10 +++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index f55827c..d9ec093 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -373,7 +373,9 @@ impl fmt::Display for POFile {
                     "#\n".to_string()
                 } else {
                     let mut header_repr = String::new();
-                    for line in header.lines() {
+                    // empty lines at the end are not written
+                    let header = header.trim_end_matches('\n');
+                    for line in header.split('\n') {
                         if line.is_empty() {
                             header_repr.push_str("#\n");
                         } else {
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 1ceb8cc..bc98f50 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -501,13 +501,9 @@ impl POFileParser {
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let mut newheader = match parser.file.header {
-        Some(ref header) => header,
-        None => "",
-    }
-    .to_string();
-    if !newheader.is_empty() {
-        newheader.push('\n');
-    }
+        Some(ref header) => format!("{}\n", header),
+        None => "".to_string(),
+    };
     if parser.current_token.len() > 2 {
         newheader.push_str(&parser.current_token[2..]);
     }
-- 
2.43.0


From a886bdedbcabb841d1fe3dab0d127942963fee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:55 +0000
Subject: [PATCH 18/26] fix: order metadata keys that are equal in natural
 order

Keys such as "X-1" and "X- 1" were written in the order given by the
hash map, which changes between runs.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 5c8e7e1..1d9ec25 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From c2be29af0e5945db085e9192707d9ac6b5ac9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:03 +0000
Subject: [PATCH 19/26] fix: do not ignore write errors when saving files

Opening the file already panics on errors; a failed write left a
truncated file without any notice.
---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 1d9ec25..2ffa2d5 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..3cc52b5 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -362,7 +362,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0


From 099704a3c7097e26311e79f210b8950147f9a1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:12 +0000
Subject: [PATCH 20/26] fix: match the context of entries exactly when merging
 PO files

A reference entry without context was taken as present if the file had
the same message under any context.
---
 rust/src/file/pofile.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index d9ec093..d197cd9 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -455,13 +455,14 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<POEntry> = self
+                .entries
+                .iter()
+                .find(|e| {
+                    e.msgid == other_entry.msgid
+                        && e.msgctxt == other_entry.msgctxt
+                })
+                .cloned();
 
             if let Some(e) = entry {
                 let mut entry = e;
-- 
2.43.0


From 93a44d19b4e0300f65491571b9c52aaa73c15832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:36 +0000
Subject: [PATCH 21/26] fix: keep the fuzzy mark of empty metadata in PO files
 without entries

---
 rust/src/poparser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index bc98f50..5731467 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -224,10 +224,8 @@ impl POFileParser {
 
         if self.current_entry.msgid.is_empty() {
             // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
+            if self.current_entry.msgstr.is_some() {
+                self.add_current_entry()?;
             }
         } else {
             self.add_current_entry()?;
-- 
2.43.0


From 7ec3e881bd41bcf64e5b44c4337200e5523a7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:17 +0000
Subject: [PATCH 22/26] fix: do not write trailing whitespace in wrapped
 comments

---
 rust/src/entry/poentry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 99a5bf2..85804eb 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -97,8 +97,12 @@ impl POEntry {
         for line in comment.lines() {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
                 for part in wrap(line, wrapwidth.saturating_sub(2)) {
+                    let part = part.trim_end();
+                    if part.is_empty() && !line.is_empty() {
+                        continue;
+                    }
                     target.push_str(prefix);
-                    target.push_str(&part);
+                    target.push_str(part);
                     target.push('\n');
                 }
             } else {
-- 
2.43.0


From acf85d7718aedc4a05c3853a58e26793278b4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:16 +0000
Subject: [PATCH 23/26] fix: show the numbers in the error about a wrong magic
 number

The message of IncorrectMagicNumber contained the names of the fields
instead of their values.
---
 rust/src/errors.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rust/src/errors.rs b/rust/src/errors.rs
index b89bda8..d7a9cf1 100644
--- a/rust/src/errors.rs
+++ b/rust/src/errors.rs
@@ -132,13 +132,7 @@ pub enum IOError {
     /// Usually this happens because the buffer offset reading the
     /// file is not correct or the file has been saved with an
     /// incorrect magic number.
-    #[snafu(display(
-        concat!(
-            "Invalid mo file, magic number is incorrect",
-            " ({{magic_number_le}} read as le, {{magic_number_be}}",
-            " read as be)",
-        )
-    ))]
+    #[snafu(display("Invalid mo file, magic number is incorrect ({magic_number_le} read as le, {magic_number_be} read as be)"))]
     IncorrectMagicNumber {
         magic_number_le: u32,
         magic_number_be: u32,
-- 
2.43.0


From 55f7e988956fe2a4934b1ef00b4da145b75bccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:35 +0000
Subject: [PATCH 24/26] fix: record the line of the first entry of a PO file

Entries carry the number of the line on which they begin, but the first
one always got 0 because its line was never set.
---
 rust/src/poparser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 5731467..63aa1eb 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -168,6 +168,13 @@ impl POFileParser {
                 }
             };
 
+        if action != St::HE
+            && [St::ST, St::HE].contains(&self.current_state)
+        {
+            // the first entry begins after the header
+            self.current_entry.linenum = self.current_line;
+        }
+
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
             // if not in a message continuation line, change the state
-- 
2.43.0


From c376d1ad38a9591746457b25d904da58056df9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:51 +0000
Subject: [PATCH 25/26] fix: count the column of a stray quote from the start
 of the line

The column given for an unescaped double quote ignored the mark of
obsolete lines, indentation and additional spaces after the keyword.
---
 rust/src/poparser.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 63aa1eb..84b0c31 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -301,6 +301,11 @@ impl POFileParser {
     fn parse_line(&mut self, line: &str) -> Result<(), SyntaxError> {
         self.current_line += 1;
 
+        // column of the first character of a text that ends the line
+        let line_width = line.trim_end().chars().count();
+        let column_of =
+            |text: &str| line_width - text.chars().count() + 1;
+
         let mut line = line.trim();
         if line.is_empty() {
             return Ok(());
@@ -327,9 +332,7 @@ impl POFileParser {
                 self.current_line,
                 self.content_is_path,
                 &self.file.options.path_or_content,
-                // +2 taking into account ' "' (space and first
-                // double quote)
-                tokens[0].chars().count() + 2,
+                column_of(line),
             )?;
             self.current_token = line.to_string();
             let symbol = *KEYWORDS.get(&tokens[0]).unwrap();
@@ -351,7 +354,7 @@ impl POFileParser {
                 self.current_line,
                 self.content_is_path,
                 &self.file.options.path_or_content,
-                1,
+                column_of(line),
             )?;
             self.process(&St::MC)?;
         } else if self.current_token.starts_with("msgstr[") {
@@ -397,9 +400,7 @@ impl POFileParser {
                 self.current_line,
                 self.content_is_path,
                 &self.file.options.path_or_content,
-                self.current_token.chars().count()
-                    - value.chars().count()
-                    + 1,
+                column_of(value),
             )?;
             self.current_token = value.to_string();
             self.process(&St::MX)?;
@@ -444,8 +445,7 @@ impl POFileParser {
                     self.current_line,
                     self.content_is_path,
                     &self.file.options.path_or_content,
-                    line.chars().count() - previous.chars().count()
-                        + 1,
+                    column_of(previous),
                 )?;
                 self.current_token = previous.to_string();
                 self.process(&St::MC)?;
@@ -486,7 +486,7 @@ impl POFileParser {
                 self.current_line,
                 self.content_is_path,
                 &self.file.options.path_or_content,
-                line.chars().count() - value.chars().count() + 1,
+                column_of(value),
             )?;
             self.current_token = value.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
-- 
2.43.0


From 6c9d8b385ec4d1fc05ef59711297c83e9f95d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:25 +0000
Subject: [PATCH 26/26] fix: reject continuations of previous texts where there
 is no previous text

A line like '#| "text"' was accepted after any string and appended to it,
so that the text of a comment line ended up in a message or translation.
---
 rust/src/poparser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 84b0c31..80303c7 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -440,6 +440,21 @@ impl POFileParser {
             let previous = line[tokens[0].len()..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                if ![St::PC, St::PM, St::PP]
+                    .contains(&self.current_state)
+                {
+                    return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                        message: "unexpected continuation of a \
+                            previous message"
+                            .to_string(),
+                    });
+                }
                 maybe_raise_unescaped_double_quote_found_error(
                     previous,
                     self.current_line,
-- 
2.43.0

