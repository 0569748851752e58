From 0a06f7d5112286179f92697d64b46a9ea795086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 01/48] fix: close office:script with its own name

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..48928bd 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2352,7 +2352,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
-- 
2.43.0


From b6d79c6b3239c287d3de65365dbc104ef102d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 02/48] fix: close header-rows and row-groups after the empty
 row they contain

---
 src/io/write.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 48928bd..7c7b411 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1965,22 +1965,7 @@ fn write_empty_rows_before(
     // Are there any row groups? Then we don't use repeat but write everything out.
     if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
         for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
             // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
             for row_group in &sheet.group_rows {
                 if row_group.from() == r {
                     *row_group_count += 1;
@@ -2001,6 +1986,23 @@ fn write_empty_rows_before(
             }
             // row
             write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+
+            if *row_header {
+                xml_out.end_elem("table:table-header-rows")?;
+            }
+            // end of the print-header
+            if let Some(header_rows) = &sheet.header_rows {
+                if header_rows.to == r {
+                    *row_header = false;
+                }
+            }
+            // groups
+            for row_group in &sheet.group_rows {
+                if row_group.to() == r {
+                    *row_group_count -= 1;
+                    xml_out.end_elem("table:table-row-group")?;
+                }
+            }
         }
     } else {
         write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
-- 
2.43.0


From 12d1ba2b8a630c23091ab0b5d88c93edc96e508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:33 +0000
Subject: [PATCH 03/48] fix: flush the fods file and report the error

---
 src/io/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 7c7b411..42fd106 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -142,9 +142,10 @@ pub fn write_fods_to<T: Write + Seek>(book: &mut WorkBook, mut write: T) -> Resu
 /// Writes the FODS file.
 pub fn write_fods<P: AsRef<Path>>(book: &mut WorkBook, fods_path: P) -> Result<(), OdsError> {
     let mut write = BufWriter::new(File::create(fods_path)?);
-    let write: &mut dyn Write = &mut write;
 
-    write_fods_impl(write, book)?;
+    write_fods_impl(&mut write, book)?;
+
+    write.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From f55c3722d7a7419f0a0ec18780363b1d66ca2156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:57 +0000
Subject: [PATCH 04/48] fix: escape generator, user-defined names and base64
 text when writing

These are free strings in the model (the generator and the names are also
taken over from the file), but were written without escaping. A value
containing '<', '&' or '"' produced a document that cannot be read back.
---
 src/io/write.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 42fd106..d2a1407 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -771,7 +771,7 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
 fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:meta")?;
 
-    xml_out.elem_text("meta:generator", &book.metadata.generator)?;
+    xml_out.elem_text_esc("meta:generator", &book.metadata.generator)?;
     if !book.metadata.title.is_empty() {
         xml_out.elem_text_esc("dc:title", &book.metadata.title)?;
     }
@@ -883,7 +883,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
@@ -1102,7 +1102,7 @@ fn write_config_item(
     match value {
         ConfigValue::Base64Binary(v) => {
             xml_out.attr_str("config:type", "base64Binary")?;
-            xml_out.text(v)?;
+            xml_out.text_esc(v)?;
         }
         ConfigValue::Boolean(v) => {
             xml_out.attr_str("config:type", "boolean")?;
@@ -2305,7 +2305,7 @@ fn write_draw_image(
 
     if let Some(bin) = draw_image.get_binary_base64() {
         xml_out.elem("office:binary-data")?;
-        xml_out.text(bin)?;
+        xml_out.text_esc(bin)?;
         xml_out.end_elem("office:binary-data")?;
     }
 
-- 
2.43.0


From 743917ad7df37a8a0e42c3d181b56c80b6875127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:07 +0000
Subject: [PATCH 05/48] fix: write xlink:actuate with the token the reader
 accepts

onLoad/onRequest are the XLink tokens and the ones the reader knows; the
writer used OnLoad/OnRequest, and the file could not be read back.
---
 src/xlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From 4744e5a4536e93936698ccbb1db5792be5036aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:14 +0000
Subject: [PATCH 06/48] fix: read the whole text of a user-defined metadata
 value

The text arrives in several pieces when it contains entities: each piece
replaced the one before and the entities were dropped.
---
 src/io/read.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..efd6851 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4147,6 +4147,7 @@ fn read_metadata_user_defined(
         }
     }
 
+    let mut value = ctx.pop_buf();
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -4156,16 +4157,22 @@ fn read_metadata_user_defined(
 
         match &evt {
             Event::End(xml_tag) if xml_tag.name() == tag.name() => {
+                if !value.is_empty() {
+                    user_defined.value = match value_type {
+                        Some("boolean") => MetaValue::Boolean(parse_bool(&value)?),
+                        Some("date") => MetaValue::Datetime(parse_datetime(&value)?),
+                        Some("float") => MetaValue::Float(parse_f64(&value)?),
+                        Some("time") => MetaValue::TimeDuration(parse_duration(&value)?),
+                        _ => MetaValue::String(from_utf8(&value)?.to_string()),
+                    };
+                }
                 break;
             }
+            Event::GeneralRef(xml_ref) => {
+                value.write_all(entity(xml_ref)?.as_bytes())?;
+            }
             Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
+                value.write_all(xml_text.decode()?.as_bytes())?;
             }
             Event::Eof => {
                 break;
@@ -4177,6 +4184,7 @@ fn read_metadata_user_defined(
 
         buf.clear();
     }
+    ctx.push_buf(value);
     ctx.push_buf(buf);
 
     Ok(user_defined)
-- 
2.43.0


From 0b60a40f38829dcf86bc14d84f04b09d53947439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:14 +0000
Subject: [PATCH 07/48] fix: read the metadata elements the writer emits as
 empty elements

template, auto-reload, hyperlink-behaviour and document-statistic are written
as empty elements but were only read as start elements. auto-reload and
target-frame-name were spelled differently by the writer and the reader.
---
 src/io/read.rs  | 18 +++++++++++++-----
 src/io/write.rs |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index efd6851..27e29cb 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3929,23 +3929,31 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
@@ -4059,7 +4067,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
diff --git a/src/io/write.rs b/src/io/write.rs
index d2a1407..5373911 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -835,7 +835,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
-- 
2.43.0


From 745cf067cc5923187e09f05918720ce6a593ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:11 +0000
Subject: [PATCH 08/48] fix: read an empty content-validation as such, not
 every start tag

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 27e29cb..0d428fe 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2072,7 +2072,7 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
-- 
2.43.0


From 08451af082fdda533bffdfb343da78603f326c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:16 +0000
Subject: [PATCH 09/48] fix: write table:display-list=none as the reader and
 ODF expect

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 5373911..94ca816 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1430,7 +1430,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
-- 
2.43.0


From d79ae0b293307885de9a80b33f252f0cd59b094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:15 +0000
Subject: [PATCH 10/48] fix: read the whole embedded text of a number format

---
 src/io/read.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 0d428fe..abd62c8 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2960,6 +2960,7 @@ fn read_part_number(
     copy_attr2(ctx, part.attrmap_mut(), super_tag)?;
 
     if !empty_tag {
+        let mut embedded = false;
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
@@ -2970,6 +2971,8 @@ fn read_part_number(
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
                 {
+                    embedded = matches!(evt, Event::Start(_));
+                    part.clear_content();
                     for attr in xml_tag.attributes().with_checks(false) {
                         let attr = attr?;
                         match attr.key.as_ref() {
@@ -2986,10 +2989,16 @@ fn read_part_number(
                         }
                     }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
-                Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    embedded = false;
+                }
+                Event::GeneralRef(xml_ref) if embedded => {
+                    part.append_content(entity(xml_ref)?);
                 }
+                Event::Text(xml_text) if embedded => {
+                    part.append_content(xml_text.decode()?);
+                }
+                Event::Text(_) => (),
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
                 }
-- 
2.43.0


From a73e8f4f024d9b41889c19333e76c6e7f133ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:19 +0000
Subject: [PATCH 11/48] fix: unescape the currency of a cell value

---
 src/io/parse.rs | 6 ------
 src/io/read.rs  | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..3ad840a 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index abd62c8..c145c6d 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -22,7 +22,7 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
     parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
@@ -1411,7 +1411,7 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
-- 
2.43.0


From 9e5cee63296d4d841d3755d993df205c49c2fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:14 +0000
Subject: [PATCH 12/48] fix: keep event listeners inside office:scripts when
 there are no scripts

---
 src/io/write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 94ca816..6662ecc 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1405,10 +1405,11 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    let has_content = !book.scripts.is_empty() || !book.event_listener.is_empty();
+    xml_out.elem_if(has_content, "office:scripts")?;
     write_scripts(&book.scripts, xml_out)?;
     write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    xml_out.end_elem_if(has_content, "office:scripts")?;
     Ok(())
 }
 
-- 
2.43.0


From fab1e57522f0b82c1a7ba497e8ea4dd4ffc797f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 13/48] fix: do not read past an empty office:script

---
 src/io/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c145c6d..654c890 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1828,6 +1828,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!("read_scripts {:?}", evt);
         }
@@ -1839,7 +1840,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1873,8 +1874,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
-- 
2.43.0


From 8412f5e939960367eb94d8f375582b94e5dd07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:10 +0000
Subject: [PATCH 14/48] fix: pad the milliseconds of a duration

---
 src/io/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..f44f848 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -9,7 +9,7 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
+                "PT{}H{}M{}.{:03}S",
                 self.0.num_hours(),
                 self.0.num_minutes() % 60,
                 self.0.num_seconds() % 60,
-- 
2.43.0


From eb03d763d839ceec9c07f4d2c38f0782dd4d0ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:17 +0000
Subject: [PATCH 15/48] fix: write and read negative durations with a leading
 sign

---
 src/io/format.rs | 16 +++++++++++-----
 src/io/parse.rs  |  7 ++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index f44f848..059522b 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,13 +7,19 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let (sign, v) = if self.0 < Duration::zero() {
+                ("-", -self.0)
+            } else {
+                ("", self.0)
+            };
             write!(
                 f,
-                "PT{}H{}M{}.{:03}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
+                "{}PT{}H{}M{}.{:03}S",
+                sign,
+                v.num_hours(),
+                v.num_minutes() % 60,
+                v.num_seconds() % 60,
+                v.num_milliseconds() % 1000
             )
         }
     }
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3ad840a..e656824 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -336,7 +336,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -385,6 +386,10 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         }
     }
 
+    if minus.is_some() {
+        result = -result;
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From 857fdb486e49e992f91d6f441c50571878c5724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:02 +0000
Subject: [PATCH 16/48] fix: keep empty string settings when reading

---
 src/io/read.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 654c890..1e6bddd 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4357,7 +4357,11 @@ fn read_config_item_set(
             println!(" read_office_item_set {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
+                if let Some((name, val)) = read_config_item_empty(ctx, xml_tag)? {
+                    config_set.insert(name, val);
+                }
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let (name, val) = read_config_item(ctx, xml, xml_tag)?;
                 config_set.insert(name, val);
@@ -4553,7 +4557,11 @@ fn read_config_item_map_entry(
             println!(" read_config_item_map_entry {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
+                if let Some((name, val)) = read_config_item_empty(ctx, xml_tag)? {
+                    config_set.insert(name, val);
+                }
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
                 let (name, val) = read_config_item(ctx, xml, xml_tag)?;
                 config_set.insert(name, ConfigItem::from(val));
@@ -4727,6 +4735,35 @@ fn read_config_item(
     Ok((name, config_val))
 }
 
+// An empty tag is a valid string, for all other types there is no value.
+fn read_config_item_empty(
+    ctx: &mut OdsContext,
+    super_tag: &BytesStart<'_>,
+) -> Result<Option<(String, ConfigValue)>, OdsError> {
+    let mut name = None;
+    let mut config_val = None;
+
+    for attr in super_tag.attributes().with_checks(false) {
+        match attr? {
+            attr if attr.key.as_ref() == b"config:name" => {
+                name = Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
+            }
+            attr if attr.key.as_ref() == b"config:type" => {
+                config_val = match attr.value.as_ref() {
+                    b"base64Binary" => Some(ConfigValue::Base64Binary(String::new())),
+                    b"string" => Some(ConfigValue::String(String::new())),
+                    _ => None,
+                };
+            }
+            attr => {
+                unused_attr("read_config_item_empty", super_tag.name().as_ref(), &attr)?;
+            }
+        }
+    }
+
+    Ok(name.zip(config_val))
+}
+
 // Reads a part of the XML as XmlTag's.
 fn read_xml(
     ctx: &mut OdsContext,
-- 
2.43.0


From 89565495abc0dce9d97677e69b614ad784295f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:16 +0000
Subject: [PATCH 17/48] fix: keep display=false of an empty page header or
 footer

---
 src/io/read.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 1e6bddd..563d3fe 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2321,29 +2321,33 @@ fn read_master_page(
             println!(" read_master_page {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {}
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, true)?);
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
-                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {
-                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {
-                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag, false)?);
+            }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, true)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
-                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {
-                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {}
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {
-                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag)?);
+                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag, false)?);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:master-page" => {
                 break;
@@ -2368,6 +2372,7 @@ fn read_headerfooter(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
     let mut content = TextContent::Empty;
@@ -2383,6 +2388,10 @@ fn read_headerfooter(
         }
     }
 
+    if empty_tag {
+        return Ok(hf);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
-- 
2.43.0


From dfa3d93f23b87e4f79e5d6f8f592253abef107e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:47 +0000
Subject: [PATCH 18/48] fix: write editing durations below one second

---
 src/io/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 6662ecc..a7df6da 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -808,7 +808,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if book.metadata.editing_cycles > 0 {
         xml_out.elem_text("meta:editing-cycles", &book.metadata.editing_cycles)?;
     }
-    if book.metadata.editing_duration.num_seconds() > 0 {
+    if !book.metadata.editing_duration.is_zero() {
         xml_out.elem_text(
             "meta:editing-duration",
             &format_duration2(book.metadata.editing_duration),
-- 
2.43.0


From 045c0c4e7f438720295d895179c7a09af2b9cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:24 +0000
Subject: [PATCH 19/48] fix: report a damaged archive part instead of skipping
 it

---
 src/io/read.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 563d3fe..218c0c6 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -11,6 +11,7 @@ use chrono::{Duration, NaiveDateTime};
 use quick_xml::events::attributes::Attribute;
 use quick_xml::events::{BytesRef, BytesStart, Event};
 use quick_xml::{Decoder, Reader};
+use zip::result::ZipError;
 use zip::ZipArchive;
 
 use crate::attrmap2::AttrMap2;
@@ -355,6 +356,15 @@ fn read_fods_impl_content_only(
     Ok(ctx.book)
 }
 
+/// A part that is missing from the archive is fine, any other error is not.
+fn optional<T>(part: Result<T, ZipError>) -> Result<Option<T>, ZipError> {
+    match part {
+        Ok(v) => Ok(Some(v)),
+        Err(ZipError::FileNotFound) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 /// Reads an ODS-file.
 fn read_ods_impl<R: Read + Seek>(
     mut zip: ZipArchive<R>,
@@ -362,7 +372,7 @@ fn read_ods_impl<R: Read + Seek>(
 ) -> Result<WorkBook, OdsError> {
     let mut ctx = OdsContext::new(options);
 
-    if let Ok(z) = zip.by_name("META-INF/manifest.xml") {
+    if let Some(z) = optional(zip.by_name("META-INF/manifest.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -372,7 +382,7 @@ fn read_ods_impl<R: Read + Seek>(
 
     read_ods_extras(&mut ctx, &mut zip)?;
 
-    if let Ok(z) = zip.by_name("meta.xml") {
+    if let Some(z) = optional(zip.by_name("meta.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
@@ -380,14 +390,14 @@ fn read_ods_impl<R: Read + Seek>(
         read_ods_metadata(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("settings.xml") {
+    if let Some(z) = optional(zip.by_name("settings.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
         read_ods_settings(&mut ctx, &mut xml)?;
     }
 
-    if let Ok(z) = zip.by_name("styles.xml") {
+    if let Some(z) = optional(zip.by_name("styles.xml"))? {
         let mut read = BufReader::new(z);
         let read: &mut dyn BufRead = &mut read;
         let mut xml = quick_xml::Reader::from_reader(read);
-- 
2.43.0


From 174a049bd7469f41955ea732feda0ec5cfd83e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 20/48] fix: write tab stops of paragraph styles without other
 properties

---
 src/io/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index a7df6da..766ade2 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2670,7 +2670,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let is_empty = style.paragraphstyle().is_empty()
+        && style.tabstops().is_none()
+        && style.textstyle().is_empty();
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2689,7 +2691,7 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
+    if !style.paragraphstyle().is_empty() || style.tabstops().is_some() {
         if style.tabstops().is_none() {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
-- 
2.43.0


From f61a2b10fd88353a82aae32f7ba8753c35b5f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:00 +0000
Subject: [PATCH 21/48] fix: keep the origin of every font declaration, not
 just of the first

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 218c0c6..9b953aa 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1957,7 +1957,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
-- 
2.43.0


From 59cdcdae07c2e2b27d7ba98ece1b70eae7290884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:00 +0000
Subject: [PATCH 22/48] fix: write the fonts of styles.xml to a flat file too

---
 src/io/write.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 766ade2..446b663 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -165,6 +165,10 @@ fn write_fods_impl(writer: &mut dyn Write, book: &mut WorkBook) -> Result<(), Od
 }
 
 fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
+    for v in book.fonts.values_mut() {
+        v.set_origin(StyleOrigin::Content);
+    }
+
     for v in book.tablestyles.values_mut() {
         v.set_origin(StyleOrigin::Content);
     }
-- 
2.43.0


From 7df54c33ddd49cbb30c7425ecc43b542bacea17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:28 +0000
Subject: [PATCH 23/48] fix: write common styles with any origin to
 office:styles

---
 src/io/write.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 446b663..e0de2de 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -333,7 +333,7 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
     write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_styles(book, xml_out)?;
     write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
@@ -1239,7 +1239,7 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_styles(book, xml_out)?;
     write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
@@ -2411,15 +2411,25 @@ fn write_style_font_face(
 
 fn write_office_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:styles")?;
+    // This is the only place for common styles, whatever their origin.
+    write_common_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_common_styles(book, StyleOrigin::Content, xml_out)?;
+    xml_out.end_elem("office:styles")?;
+    Ok(())
+}
+
+fn write_common_styles(
+    book: &WorkBook,
+    origin: StyleOrigin,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
     write_styles(book, origin, StyleUse::Default, xml_out)?;
     write_styles(book, origin, StyleUse::Named, xml_out)?;
     write_valuestyles(book, origin, StyleUse::Named, xml_out)?;
     write_valuestyles(book, origin, StyleUse::Default, xml_out)?;
-    xml_out.end_elem("office:styles")?;
     Ok(())
 }
 
-- 
2.43.0


From 0f0c6ef56bdca8509e4b556660011ab26f6e9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:03 +0000
Subject: [PATCH 24/48] fix: stop reading a table at the end of the input

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 9b953aa..f5a7ad6 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1087,6 +1087,9 @@ fn read_table(
                 col_data |= have_data;
             }
 
+            Event::Eof => {
+                break;
+            }
             _ => {
                 unused_event("read_table", &evt)?;
             }
-- 
2.43.0


From e4768bcfa29fea5c21ff0f90f14ba7f2783f9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 25/48] fix: read elements that contain elements of the same
 name

---
 src/io/read.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index f5a7ad6..fcf0bbc 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4812,8 +4812,8 @@ fn read_xml(
                     copy_attr2(ctx, tag.attrmap_mut(), xml_tag)?;
                     stack.push(tag);
                 }
-                Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                Event::End(_) => {
+                    if stack.len() == 1 {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -4989,14 +4989,9 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(xml_tag)
+                    if stack.is_empty() && xml_tag.name() == super_tag.name() =>
+                {
                     break;
                 }
                 Event::End(xml_tag) => {
-- 
2.43.0


From a9f1049982eb5ffb9718791a16dbac91883964e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 26/48] fix: do not panic on a validation condition without the
 of: prefix

---
 src/io/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index fcf0bbc..c812400 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2240,7 +2240,7 @@ fn read_validation(
             attr if attr.key.as_ref() == b"table:condition" => {
                 // split off 'of:' prefix
                 let v = attr.decode_and_unescape_value(ctx.decoder)?;
-                valid.set_condition(Condition::new(v.split_at(3).1));
+                valid.set_condition(Condition::new(v.strip_prefix("of:").unwrap_or(&v)));
             }
             attr if attr.key.as_ref() == b"table:allow-empty-cell" => {
                 valid.set_allow_empty(parse_bool(&attr.value)?);
-- 
2.43.0


From cd029c9b8f16f1101d0f9e798fc260cf1a9199de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 27/48] fix: do not panic on table:number-rows-repeated=0

---
 src/io/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c812400..4004db5 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1154,7 +1154,8 @@ fn read_table_row_attr(
         match attr? {
             // table:default-cell-style-name 19.615, table:visibility 19.749 and xml:id 19.914.
             attr if attr.key.as_ref() == b"table:number-rows-repeated" => {
-                row_repeat = parse_u32(&attr.value)?;
+                // at least one row
+                row_repeat = parse_u32(&attr.value)?.max(1);
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
-- 
2.43.0


From 46c866b4630921dc55183c49fba64938bc40ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:11 +0000
Subject: [PATCH 28/48] fix: report a duration out of range instead of
 panicking

---
 src/io/parse.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index e656824..1a02c78 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -354,34 +354,29 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         ))),
     )))(input)?;
 
-    let mut result = Duration::try_seconds(0).ok_or(nom::Err::Error(KTokenizerError::new(
-        RCode::Duration,
-        input,
-    )))?;
+    let overflow = || nom::Err::Error(KTokenizerError::new(RCode::Duration, input));
+    let mut result = Duration::zero();
+    let mut add = |v: Option<Duration>| {
+        result = v
+            .and_then(|v| result.checked_add(&v))
+            .ok_or_else(overflow)?;
+        Ok::<_, nom::Err<_>>(())
+    };
+
     if let Some(day) = day {
-        result += Duration::try_days(day).ok_or(nom::Err::Error(KTokenizerError::new(
-            RCode::Duration,
-            input,
-        )))?;
+        add(Duration::try_days(day))?;
     }
     if let Some((_, hour, minute, second)) = time {
         if let Some(hour) = hour {
-            result += Duration::try_hours(hour).ok_or(nom::Err::Error(KTokenizerError::new(
-                RCode::Duration,
-                input,
-            )))?;
+            add(Duration::try_hours(hour))?;
         }
         if let Some(minute) = minute {
-            result += Duration::try_minutes(minute).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            add(Duration::try_minutes(minute))?;
         }
         if let Some((second, nanos)) = second {
-            result += Duration::try_seconds(second).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            add(Duration::try_seconds(second))?;
             if let Some(nanos) = nanos {
-                result += Duration::nanoseconds(nanos);
+                add(Some(Duration::nanoseconds(nanos)))?;
             }
         }
     }
-- 
2.43.0


From 9e07012bbc6d92e36bc6dab50f09ce7f75708ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:51 +0000
Subject: [PATCH 29/48] fix: restore the zoom of the page view

---
 src/io/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 4004db5..0e6c82b 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -731,6 +731,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
-- 
2.43.0


From fc31d1ba5dc824f33ae58f71aebd134da595fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 30/48] fix: a column width or row height replaces the optimal
 size of the style

---
 src/io/write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index e0de2de..321b71e 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -505,6 +505,7 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                         style.set_use_optimal_col_width(true);
                         style.set_col_width(Length::Default);
                     } else {
+                        style.set_use_optimal_col_width(false);
                         style.set_col_width(ch.width);
                     }
                 }
@@ -534,6 +535,7 @@ fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                         style.set_use_optimal_row_height(true);
                         style.set_row_height(Length::Default);
                     } else {
+                        style.set_use_optimal_row_height(false);
                         style.set_row_height(rh.height);
                     }
                 }
-- 
2.43.0


From 1919a4c15e6af5ff99e48b5e9d36775c8a26da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:11 +0000
Subject: [PATCH 31/48] fix: changing a row header does not overwrite the next
 row's header

Splitting a row header at its last row inserted a header with span 0 for
the next row, replacing the one already there.
---
 src/sheet_.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..32f9747 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -846,14 +846,10 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
-                    // noop
-                } else {
-                    unreachable!();
                 }
             } else {
                 self.row_header.insert(row, RowHeader::default());
-- 
2.43.0


From ffcf0e3dca2dcddab2b08cb17a98a9c7f492bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:06 +0000
Subject: [PATCH 32/48] fix: transliteration_locale() returns the
 transliteration locale, not the locale

---
 src/macro_attr_number.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macro_attr_number.rs b/src/macro_attr_number.rs
index dd23ff6..42d730d 100644
--- a/src/macro_attr_number.rs
+++ b/src/macro_attr_number.rs
@@ -110,9 +110,11 @@ macro_rules! number_transliteration_locale {
 
         /// Returns number:transliteration_language and number:transliteration_country as a locale.
         pub fn transliteration_locale(&self) -> Option<Locale> {
-            if let Some(language) = self.attr.attr("number:language") {
+            if let Some(language) = self.attr.attr("number:transliteration-language") {
                 if let Ok(language) = Language::try_from_utf8(language.as_bytes()) {
-                    let region = if let Some(region) = self.attr.attr("number:country") {
+                    let region = if let Some(region) =
+                        self.attr.attr("number:transliteration-country")
+                    {
                         Region::try_from_utf8(region.as_bytes()).ok()
                     } else {
                         None
-- 
2.43.0


From ae1174064d30f9422ab4ca7bb360d89297defe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:07 +0000
Subject: [PATCH 33/48] fix: set_font_size_rel() sets style:font-size-rel,
 which is its name in ODF

---
 src/macro_attr_fo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_attr_fo.rs b/src/macro_attr_fo.rs
index e5df78c..2ff1a7a 100644
--- a/src/macro_attr_fo.rs
+++ b/src/macro_attr_fo.rs
@@ -582,7 +582,7 @@ macro_rules! fo_font_size_rel {
         /// This attribute specifies a relative font size change as a length. It cannot be used within automatic
         /// styles. This attribute changes the font size based on the font size of the parent style.
         pub fn set_font_size_rel(&mut self, size: FontSize) {
-            self.$acc.set_attr("fo:font-size-rel", size.to_string());
+            self.$acc.set_attr("style:font-size-rel", size.to_string());
         }
     };
 }
-- 
2.43.0


From 30a507cfcdb84934934b072a1576c2477872ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:07 +0000
Subject: [PATCH 34/48] fix: set_xml_id() sets xml:id

---
 src/macro_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro_style.rs b/src/macro_style.rs
index 3b1bb9d..9bca478 100644
--- a/src/macro_style.rs
+++ b/src/macro_style.rs
@@ -122,7 +122,7 @@ macro_rules! xml_id {
         /// The table:end-y attribute specifies the y-coordinate of the end position of a shape relative to
         /// the top-left edge of a cell. The size attributes of the shape are ignored.
         pub fn set_xml_id<S: Into<String>>(&mut self, id: S) {
-            self.$acc.set_attr("xml_id", id.into());
+            self.$acc.set_attr("xml:id", id.into());
         }
     };
 }
-- 
2.43.0


From a990858aa151bc5b3975cfb1667e74fd104788c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:07 +0000
Subject: [PATCH 35/48] fix: the rotation angle of text is
 style:text-rotation-angle

---
 src/macro_attr_style.rs | 11 +++++++++++
 src/macro_format.rs     |  2 +-
 src/style/textstyle.rs  |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/macro_attr_style.rs b/src/macro_attr_style.rs
index b33937a..46aac87 100644
--- a/src/macro_attr_style.rs
+++ b/src/macro_attr_style.rs
@@ -223,6 +223,17 @@ macro_rules! style_rotation_scale {
     };
 }
 
+macro_rules! style_text_rotation_angle {
+    ($acc:ident) => {
+        // style:text-rotation-angle 20.385,
+        /// The style:text-rotation-angle attribute specifies an angle to which text is rotated.
+        pub fn set_rotation_angle(&mut self, angle: Angle) {
+            self.$acc
+                .set_attr("style:text-rotation-angle", angle.to_string());
+        }
+    };
+}
+
 macro_rules! style_rotation_angle {
     ($acc:ident) => {
         // style:rotation-angle 20.347,
diff --git a/src/macro_format.rs b/src/macro_format.rs
index 30e15f9..b676e2d 100644
--- a/src/macro_format.rs
+++ b/src/macro_format.rs
@@ -108,7 +108,7 @@ macro_rules! valueformat {
             fo_text_transform!(textstyle);
             style_font_relief!(textstyle);
             style_text_position!(textstyle);
-            style_rotation_angle!(textstyle);
+            style_text_rotation_angle!(textstyle);
             style_rotation_scale!(textstyle);
             style_letter_kerning!(textstyle);
             style_text_combine!(textstyle);
diff --git a/src/style/textstyle.rs b/src/style/textstyle.rs
index 3019399..356a988 100644
--- a/src/style/textstyle.rs
+++ b/src/style/textstyle.rs
@@ -107,7 +107,7 @@ impl TextStyle {
     fo_text_transform!(textstyle);
     style_font_relief!(textstyle);
     style_text_position!(textstyle);
-    style_rotation_angle!(textstyle);
+    style_text_rotation_angle!(textstyle);
     style_rotation_scale!(textstyle);
     style_letter_kerning!(textstyle);
     style_text_combine!(textstyle);
-- 
2.43.0


From c6a938eb99acf9b33bda56f38f8124710dd44d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:03 +0000
Subject: [PATCH 36/48] fix: unlimited hyphenation ladder is no-limit in ODF

---
 src/style/units.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/style/units.rs b/src/style/units.rs
index c9c26b0..fba712b 100644
--- a/src/style/units.rs
+++ b/src/style/units.rs
@@ -675,7 +675,7 @@ pub enum HyphenationLadderCount {
 impl Display for HyphenationLadderCount {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            HyphenationLadderCount::NoLimit => write!(f, "no_limit"),
+            HyphenationLadderCount::NoLimit => write!(f, "no-limit"),
             HyphenationLadderCount::Count(c) => c.fmt(f),
         }
     }
-- 
2.43.0


From f6903607261330dd13eb1814bda28b2db5432d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:59 +0000
Subject: [PATCH 37/48] fix: min_integer_digits() of a fraction does not set
 the numerator digits

---
 src/format/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/builder.rs b/src/format/builder.rs
index 9be740c..8f3e8e0 100644
--- a/src/format/builder.rs
+++ b/src/format/builder.rs
@@ -432,7 +432,7 @@ impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
     #[must_use]
     pub fn min_integer_digits(mut self, v: u8) -> Self {
         self.part
-            .set_attr("number:min-numerator-digits", v.to_string());
+            .set_attr("number:min-integer-digits", v.to_string());
         self
     }
 
-- 
2.43.0


From dd22d808624471d6f7ecc55dec5c96f4c4a4c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:59 +0000
Subject: [PATCH 38/48] fix: text:cond-style-name and text:outline-level have
 their ODF names

---
 src/text.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 7977c78..be68b02 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -62,7 +62,7 @@ impl TextH {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
@@ -80,7 +80,7 @@ impl TextH {
 
     /// Level of the heading.
     pub fn outline_level(mut self, l: u8) -> Self {
-        self.xml.set_attr("text:outlinelevel", l.to_string());
+        self.xml.set_attr("text:outline-level", l.to_string());
         self
     }
 
@@ -136,7 +136,7 @@ impl TextP {
     /// Sets a conditional style.
     pub fn condstyle_name(mut self, name: &ParagraphStyleRef) -> Self {
         self.xml
-            .set_attr("text:condstyle-name", name.as_str().to_string());
+            .set_attr("text:cond-style-name", name.as_str().to_string());
         self
     }
 
-- 
2.43.0


From ea92d56bae7256f0800f3f7e06ebec241d9bf6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:50 +0000
Subject: [PATCH 39/48] fix: currency formats with a leading symbol contain the
 number once

---
 src/format/create.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/format/create.rs b/src/format/create.rs
index 8322991..78380cb 100644
--- a/src/format/create.rs
+++ b/src/format/create.rs
@@ -73,11 +73,6 @@ where
         .symbol(symbol)
         .build();
     v.part_text(" ").build();
-    v.part_number()
-        .decimal_places(2)
-        .min_decimal_places(2)
-        .grouping()
-        .build();
     v.part_number()
         .decimal_places(2)
         .min_decimal_places(2)
-- 
2.43.0


From a77d3a3eee3ebc85f269a8e8ef26c678216f7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:09 +0000
Subject: [PATCH 40/48] fix: the default time formats of the locales have their
 own names

---
 src/locale/cs_cz.rs   | 4 ++--
 src/locale/de_at.rs   | 4 ++--
 src/locale/default.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/locale/cs_cz.rs b/src/locale/cs_cz.rs
index 2d8b547..ebe9808 100644
--- a/src/locale/cs_cz.rs
+++ b/src/locale/cs_cz.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/de_at.rs b/src/locale/de_at.rs
index bb136b7..1b6d59c 100644
--- a/src/locale/de_at.rs
+++ b/src/locale/de_at.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/default.rs b/src/locale/default.rs
index 39012d3..bf54137 100644
--- a/src/locale/default.rs
+++ b/src/locale/default.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
-- 
2.43.0


From 2215ddb7d4d355fa2f7d0de7156303c21bb3704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:09 +0000
Subject: [PATCH 41/48] fix: table names in references are quoted whenever they
 can't be parsed unquoted

---
 src/refs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..c683963 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -1125,7 +1125,8 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        // everything the parser for unquoted names doesn't accept.
+        if table_name.contains(|c: char| c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_') {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
-- 
2.43.0


From 8eb5e8b238408f1f94e4badbde0d5d2f3ae70ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:09 +0000
Subject: [PATCH 42/48] fix: cell! with a table makes only the parts marked abs
 absolute

---
 src/formula.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index 91816ca..a4062e9 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -148,13 +148,13 @@ macro_rules! cell {
         spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
     };
     ($table:expr => abs $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, false, $col)
     };
     ($table:expr => $row:expr, abs $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, true, $col)
     };
     ($table:expr => $row:expr, $col:expr) => {
-        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), true, $row, true, $col)
+        spreadsheet_ods::CellRef::new_all(None, Some($table.into()), false, $row, false, $col)
     };
 
     ($table:expr => abs $row:expr, abs $col:expr, abs $row2:expr, abs $col2:expr) => {
-- 
2.43.0


From de828ad3d56bc056079b2d93c8a4186b7e98c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:11 +0000
Subject: [PATCH 43/48] fix: empty paragraphs of a cell, header or footer were
 lost on load

The writer produces <text:p></text:p> for an empty line, which was read as
no text at all. An empty text became an empty cell, and empty lines of a
multi-line text vanished.
---
 src/io/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 0e6c82b..624ba43 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1527,6 +1527,11 @@ fn ignore_cell(
 }
 
 fn append_text(new_txt: TextContent, mut content: TextContent) -> TextContent {
+    // An empty paragraph is a paragraph too.
+    let new_txt = match new_txt {
+        TextContent::Empty => TextContent::Text(String::new()),
+        new_txt => new_txt,
+    };
     // There can be multiple text:p elements within the cell.
     content = match content {
         TextContent::Empty => new_txt,
-- 
2.43.0


From 32fb9168349dd00cdc3fca1ae16216da784f8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:58 +0000
Subject: [PATCH 44/48] fix: named expressions and conditional formats of a
 sheet were written after its end tag

The elements were found at the level of the workbook when the file was read
again: the names lost their sheet.
---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 321b71e..1b0de15 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1805,14 +1805,14 @@ fn write_sheet(
         prev_col = cur_col;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From 3f216c1486e871b4045037b30d3e1ef053eb1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 45/48] fix: splitting a column header leaves a header for the
 one column only

---
 src/sheet_.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 32f9747..ae1c8ac 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
-- 
2.43.0


From c348c7a9d73d05d41a69a03a8c3ab6af4dd2254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 46/48] fix: equal column headers with a gap between them are
 not joined

---
 src/sheet_.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index ae1c8ac..69ea222 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1717,7 +1717,8 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                // only adjacent headers can be joined.
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From 97c678312a93062334fc81ef2e8bc88984413565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:32 +0000
Subject: [PATCH 47/48] fix: column headers right of the last cell are written

---
 src/io/write.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 1b0de15..5ba24dc 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2062,6 +2062,9 @@ fn write_table_columns(
     if let Some(header_cols) = &sheet.header_cols {
         max_col = max(max_col, header_cols.to + 1);
     }
+    if let Some((col, col_header)) = sheet.col_header.last_key_value() {
+        max_col = max(max_col, col + col_header.span);
+    }
 
     // table:table-column
     let mut c = 0;
-- 
2.43.0


From 8e8609749ba1020201cf1675743b6c1ca300c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:19 +0000
Subject: [PATCH 48/48] fix: rows without cells keep their own row header

---
 src/io/write.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 5ba24dc..6ce5ff8 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::max;
+use std::cmp::{max, min};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -2013,7 +2013,22 @@ fn write_empty_rows_before(
             }
         }
     } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        // a repeated row can stand for rows with the same header only.
+        let end_row = last_row + last_row_repeat;
+        let mut row = last_row;
+        while row < end_row {
+            let mut next_row = end_row;
+            if let Some((base_row, row_header)) = sheet.row_header.range(..=row).last() {
+                if base_row + row_header.span > row {
+                    next_row = min(next_row, base_row + row_header.span);
+                }
+            }
+            if let Some((base_row, _)) = sheet.row_header.range(row + 1..).next() {
+                next_row = min(next_row, *base_row);
+            }
+            write_empty_row(sheet, row, next_row - row, max_cell, xml_out)?;
+            row = next_row;
+        }
     }
 
     Ok(())
-- 
2.43.0

