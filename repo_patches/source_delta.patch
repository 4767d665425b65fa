From c299258835329b7985e96b69bdb812e2dff2199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:36 +0000
Subject: [PATCH 01/82] fix: report docx output file errors and create the file
 only after rendering

---
 src/backends/docx/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 1ae0ac2..c1a4154 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -15,7 +15,6 @@ use self::document::DocxRenderError;
 
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
-    let file = File::create(output_path).unwrap();
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
 
@@ -32,6 +31,8 @@ pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionErro
     for block in graph.blocks.iter() {
         docx = writer.add_block_to_doc(docx, block)?
     }
+    // only create the output once there is something to write
+    let file = File::create(output_path).map_err(DocxRenderError::from)?;
     match docx.build().pack(file) {
         Ok(_) => Ok(()),
         Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),
-- 
2.43.0


From b3f57d90b9afe702bedf29efbaeac6e0ea5fa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:36 +0000
Subject: [PATCH 02/82] fix: return template errors from the html backend
 instead of panicking

---
 src/backends/htmls.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/backends/htmls.rs b/src/backends/htmls.rs
index 81ec4e8..a358982 100644
--- a/src/backends/htmls.rs
+++ b/src/backends/htmls.rs
@@ -21,10 +21,8 @@ fn render_from_templates(
 ) -> Result<String, ConversionError> {
     // from their docs
     let mut tera = Tera::default();
-    tera.add_raw_templates(templates).expect("failure");
-    Ok(tera
-        .render("htmlbook.html.tera", &Context::from_serialize(graph)?)
-        .expect("failure"))
+    tera.add_raw_templates(templates)?;
+    Ok(tera.render("htmlbook.html.tera", &Context::from_serialize(graph)?)?)
 }
 
 fn gather_htmlbook_templates() -> Vec<(&'static str, &'static str)> {
-- 
2.43.0


From e7c52d3b41d4f546d894a863308995902d19e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:49 +0000
Subject: [PATCH 03/82] fix: report read, write and docx failures of the CLI as
 errors instead of panicking

---
 src/bin/asciidocr/cli.rs  | 14 ++++----------
 src/bin/asciidocr/main.rs | 20 +++++++++-----------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/bin/asciidocr/cli.rs b/src/bin/asciidocr/cli.rs
index a4f759e..ba74549 100644
--- a/src/bin/asciidocr/cli.rs
+++ b/src/bin/asciidocr/cli.rs
@@ -1,6 +1,6 @@
+use anyhow::{Context, Result};
 use asciidocr::backends::Backends;
 use clap::Parser;
-use log::warn;
 use std::{fs, io, path::PathBuf};
 
 /// Main entrypoint for asciidocr when called as executable
@@ -30,16 +30,10 @@ pub struct Cli {
     pub do_not_resolve_targets: bool,
 }
 
-pub fn read_input(args: &Cli) -> String {
+pub fn read_input(args: &Cli) -> Result<String> {
     match args.file.as_str() {
-        "-" => io::read_to_string(io::stdin()).expect("Error reading from stdin"),
-        _ => match fs::read_to_string(args.file.as_str()) {
-            Ok(file_string) => file_string,
-            Err(e) => {
-                warn!("Unable to read file {:?}: {e}", &args.file.as_str());
-                std::process::exit(1)
-            }
-        },
+        "-" => io::read_to_string(io::stdin()).context("Error reading from stdin"),
+        file => fs::read_to_string(file).with_context(|| format!("Unable to read file {file:?}")),
     }
 }
 
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 87af86f..4ad9a52 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -26,7 +26,7 @@ fn main() {
     let args = Cli::parse();
 
     if let Err(e) = run(args) {
-        eprintln!("Error converting document: {}", e);
+        eprintln!("Error converting document: {:#}", e);
         std::process::exit(1)
     }
 }
@@ -34,9 +34,9 @@ fn main() {
 fn run(args: Cli) -> Result<()> {
     let graph = match args.do_not_resolve_targets {
         true => AdocParser::new_no_target_resolution(PathBuf::from(&args.file))
-            .parse(Scanner::new(&read_input(&args)))?,
+            .parse(Scanner::new(&read_input(&args)?))?,
         false => {
-            AdocParser::new(PathBuf::from(&args.file)).parse(Scanner::new(&read_input(&args)))?
+            AdocParser::new(PathBuf::from(&args.file)).parse(Scanner::new(&read_input(&args)?))?
         }
     };
     if args.count {
@@ -45,12 +45,10 @@ fn run(args: Cli) -> Result<()> {
 
     match args.backend {
         Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args));
-            Ok(())
+            render_string(render_htmlbook(&graph)?, read_output(args))
         }
         Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args));
-            Ok(())
+            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
         }
 
         #[cfg(feature = "docx")]
@@ -63,8 +61,7 @@ fn run(args: Cli) -> Result<()> {
             }
 
             if let Some(output_path) = read_output(args) {
-                render_docx(&graph, &output_path).expect("Error rendering docx");
-                Ok(())
+                Ok(render_docx(&graph, &output_path)?)
             } else {
                 eprintln!("Error: can't send docx backend to stdout");
                 std::process::exit(1)
@@ -73,9 +70,10 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
-fn render_string(result: String, output_destination: Option<PathBuf>) {
+fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
-        Some(out_file) => fs::write(out_file, result).expect("Error writng file"),
+        Some(out_file) => fs::write(out_file, result)?,
         None => println!("{}", result),
     }
+    Ok(())
 }
-- 
2.43.0


From 3251a224ea75e711e24899d30e71c27beed1f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:51 +0000
Subject: [PATCH 04/82] fix: fail on unresolved inline image targets as for
 block images

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b4b4a51..41a1a57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -896,7 +896,7 @@ impl Parser {
 
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
-        let _ = self.check_target(token.line, &target);
+        self.check_target(token.line, &target)?;
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
                 target,
-- 
2.43.0


From 8ea9331a196ff0b8c8fd86b99966fed727e2ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:13 +0000
Subject: [PATCH 05/82] fix: resolve targets of string input from the current
 directory without exiting or panicking

---
 src/bin/asciidocr/main.rs |  8 ++------
 src/graph/asg.rs          |  3 +--
 src/parser.rs             | 13 +++----------
 3 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 4ad9a52..1f248ed 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -44,12 +44,8 @@ fn run(args: Cli) -> Result<()> {
     }
 
     match args.backend {
-        Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args))
-        }
-        Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
-        }
+        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),
+        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, read_output(args)),
 
         #[cfg(feature = "docx")]
         Backends::Docx => {
diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index 35e5f7d..d4e5037 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -1,5 +1,4 @@
 use std::collections::HashMap;
-use std::env::current_dir;
 
 use serde::Serialize;
 
@@ -47,7 +46,7 @@ impl Default for Asg {
 impl std::str::FromStr for Asg {
     type Err = AsciidocrError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Parser::new(current_dir()?).parse(Scanner::new(s))?)
+        Ok(Parser::default().parse(Scanner::new(s))?)
     }
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index 41a1a57..926cd73 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,14 +1,13 @@
 //! Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph)
 use std::{
     collections::{HashMap, VecDeque},
-    env,
     fmt::Debug,
     fs,
     path::{Path, PathBuf},
     str::FromStr,
 };
 
-use log::{error, warn};
+use log::warn;
 
 use crate::scanner::tokens::{Token, TokenType};
 use crate::{
@@ -83,13 +82,7 @@ pub struct Parser {
 impl Default for Parser {
     fn default() -> Self {
         // defaults assuming stdin
-        match env::current_dir() {
-            Ok(dir) => Self::new(dir),
-            Err(e) => {
-                error!("Unexpeced error: {e}");
-                std::process::exit(1)
-            }
-        }
+        Self::new(PathBuf::from("-"))
     }
 }
 
@@ -100,7 +93,7 @@ impl Parser {
     pub fn new(origin: PathBuf) -> Self {
         let origin_directory = origin
             .parent()
-            .unwrap_or(&env::current_dir().unwrap())
+            .unwrap_or(Path::new("")) // i.e., the current directory
             .to_path_buf();
         Parser {
             origin_directory,
-- 
2.43.0


From 973ad41d7343c729fb0ba95d2bfefae0df4f28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:27 +0000
Subject: [PATCH 06/82] fix: report unreadable include files as parse errors
 instead of exiting

---
 src/parser.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 926cd73..1e551d1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -549,6 +549,8 @@ impl Parser {
         // calculate target, given that it's relative; if there is something on the stack, use
         // that, else use self.origin
         let resolved_target = self.resolve_target(token.line, &target)?;
+        let file_contents = fs::read_to_string(&resolved_target)
+            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;
         self.file_stack.push(target.clone());
 
         let current_block_stack_len = self.block_stack.len();
@@ -562,8 +564,7 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&open_file(resolved_target), self.file_stack.clone())
-        {
+        for result in Scanner::new_with_stack(&file_contents, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
                     // lines
@@ -1528,16 +1529,3 @@ impl Parser {
         }
     }
 }
-
-fn open_file<P>(filename: P) -> String
-where
-    P: AsRef<Path> + Into<PathBuf> + Debug,
-{
-    match fs::read_to_string(&filename) {
-        Ok(file_string) => file_string,
-        Err(e) => {
-            warn!("Unable to read file {:?}: {e}", filename);
-            std::process::exit(1)
-        }
-    }
-}
-- 
2.43.0


From 5a44471157455cf86d4cfc61356028185aeb9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:35 +0000
Subject: [PATCH 07/82] fix: report tables without column information as errors
 instead of exiting

---
 src/errors.rs       |  2 ++
 src/graph/blocks.rs | 16 ++++++----------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 37bf587..a348036 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -86,6 +86,8 @@ pub enum BlockError {
     DanglingList,
     #[error("Attempted to add something other than a TableCell to a Table")]
     TableCell,
+    #[error("Unable to determine the columns of the table at line {0}")]
+    TableColumns(usize),
     #[error("push_block not implemented for {0}")]
     NotImplemented(String),
     #[error("Incorrect function call: consolidate_table_info on non-table block")]
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a433ad8..b13dc3e 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,4 +1,4 @@
-use log::{error, warn};
+use log::warn;
 use std::{collections::HashMap, fmt::Display};
 
 use serde::Serialize;
@@ -230,13 +230,10 @@ impl Block {
                     }
                 }
                 // count for implicit column designation
-                let cols = table
-                    .blocks
-                    .iter()
-                    .fold(0usize, |acc, block| match block.line() {
-                        Ok(line) => acc + (line == first_cell_line) as usize,
-                        Err(_) => acc, // shouldn't ever happen
-                    });
+                let mut cols: usize = 0;
+                for block in table.blocks.iter() {
+                    cols += (block.line()? == first_cell_line) as usize;
+                }
                 if let Some(ref mut metadata) = table.metadata {
                     if !metadata.attributes.contains_key("cols") {
                         metadata
@@ -253,8 +250,7 @@ impl Block {
             }
             // FOR NOW, make the cols an integer for easier templating.
             let Some(ref mut metadata) = table.metadata else {
-                error!("Error creating table at Line: {}", first_cell_line);
-                std::process::exit(1)
+                return Err(BlockError::TableColumns(first_cell_line));
             };
             metadata.simplify_cols();
         }
-- 
2.43.0


From 140f97779c7b9ce13ae94ee8ba745247bfff5c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:55 +0000
Subject: [PATCH 08/82] fix: do not print inline values from the library

---
 src/graph/inlines.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ce7e3d7..33c53af 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -204,7 +204,6 @@ impl Inline {
     pub fn trim(&mut self) {
         if let Inline::InlineLiteral(inline) = self {
             inline.value = inline.value.trim().to_string();
-            println!("{:?}", inline.value)
         }
     }
 
-- 
2.43.0


From ff100842b554b0f0110ec6a9a39eb76f7ddad7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:34 +0000
Subject: [PATCH 09/82] fix: serialize attributes in key order so json output
 is reproducible

---
 src/graph/asg.rs      |  6 +++++-
 src/graph/metadata.rs | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index d4e5037..fe4024a 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -8,6 +8,7 @@ use crate::scanner::Scanner;
 
 use super::blocks::{Block, ParentBlock};
 use super::inlines::Inline;
+use super::metadata::sorted_attributes;
 use super::nodes::{Header, Location, NodeTypes};
 
 /// Abstract Syntax Graph used to represent an asciidoc document
@@ -20,7 +21,10 @@ pub struct Asg {
     #[serde(rename = "type")]
     /// This is always "block"
     pub node_type: NodeTypes,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        serialize_with = "sorted_attributes"
+    )]
     pub attributes: Option<HashMap<String, String>>, // the value can also be a bool; deal with this later
     #[serde(skip_serializing_if = "Option::is_none")]
     pub header: Option<Header>,
diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7838a82..474fe9a 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -1,8 +1,11 @@
-use std::{collections::HashMap, fmt::Debug};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt::Debug,
+};
 
 use once_cell::sync::Lazy;
 use regex::Regex;
-use serde::Serialize;
+use serde::{Serialize, Serializer};
 
 use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
@@ -12,6 +15,18 @@ use crate::utils::{extract_attributes, key_values_from_named_attribute};
 pub static RE_NAMED_QUOTED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(\w*=".*?")"#).unwrap());
 pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)[=|,](.*)"#).unwrap());
 
+/// Serializes attributes in key order, so that the output doesn't vary from run to run
+pub(crate) fn sorted_attributes<'a, A, S>(attributes: A, serializer: S) -> Result<S::Ok, S::Error>
+where
+    A: Into<Option<&'a HashMap<String, String>>>,
+    S: Serializer,
+{
+    let attributes: Option<&HashMap<String, String>> = attributes.into();
+    attributes
+        .map(|attributes| attributes.iter().collect::<BTreeMap<_, _>>())
+        .serialize(serializer)
+}
+
 #[derive(PartialEq, Clone, Debug)]
 pub enum AttributeType {
     Role,
@@ -35,6 +50,7 @@ impl AttributeType {
 
 #[derive(Serialize, PartialEq, Default, Clone, Debug)]
 pub struct ElementMetadata {
+    #[serde(serialize_with = "sorted_attributes")]
     pub attributes: HashMap<String, String>,
     pub options: Vec<String>,
     pub roles: Vec<String>,
-- 
2.43.0


From e30ec1257a364bd47516c62a24b7f465e08b76c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:36 +0000
Subject: [PATCH 10/82] fix: do not take multi-byte characters for the end of
 the input when scanning

---
 src/scanner/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c756673..43a7820 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -805,9 +805,13 @@ impl<'a> Scanner<'a> {
     }
 
     fn peek(&self) -> char {
-        if self.is_at_end() || !self.source.is_char_boundary(self.current) {
+        if self.is_at_end() {
             return '\0';
         }
+        // inside of a multi-byte character, so not the end, but not any markup either
+        if !self.source.is_char_boundary(self.current) {
+            return char::REPLACEMENT_CHARACTER;
+        }
         self.source.as_bytes()[self.current] as char
     }
 
@@ -821,6 +825,7 @@ impl<'a> Scanner<'a> {
     fn peeks_ahead(&self, count: usize) -> &str {
         if self.is_at_end()
             || self.current + count > self.source.len()
+            || !self.source.is_char_boundary(self.current)
             || !self.source.is_char_boundary(self.current + count)
         {
             return "\0";
-- 
2.43.0


From 16cb6ff2851f82e563c7373034ee6e64714fd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:38 +0000
Subject: [PATCH 11/82] fix: scan unterminated macros, anchors and cross
 references as text instead of panicking

---
 src/scanner/mod.rs | 59 +++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 43a7820..2c9d291 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -507,29 +507,32 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_block_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
-        }
-        self.current += 1; // consume the ']' char
-        self.add_token(TokenType::BlockImageMacro, true, 0)
+        self.add_macro(TokenType::BlockImageMacro)
     }
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
-        }
-        self.current += 1; // consume the ']' char
-        self.add_token(TokenType::InlineImageMacro, true, 0)
+        self.add_macro(TokenType::InlineImageMacro)
     }
 
     /// Adds the include image, consuming the target as well as any attributes
     fn add_include(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
+        self.add_macro(TokenType::Include)
+    }
+
+    /// Adds everything through the closing ']', or text if there are no brackets on the line
+    fn add_macro(&mut self, token_type: TokenType) -> Result<Token, ScannerError> {
+        let current_placeholder = self.current;
+        while ![']', '\n', '\0'].contains(&self.peek()) {
             self.current += 1
         }
-        self.current += 1; // consume the ']' char
-        self.add_token(TokenType::Include, true, 0)
+        if self.peek() == ']' && self.source[self.start..self.current].contains('[') {
+            self.current += 1; // consume the ']' char
+            self.add_token(token_type, true, 0)
+        } else {
+            self.current = current_placeholder;
+            self.add_text_until_next_markup()
+        }
     }
 
     /// Adds contents into a TableCell token, regardless of other formatting (simpler to re-scan later)
@@ -578,29 +581,37 @@ impl<'a> Scanner<'a> {
     }
 
     fn add_inline_style(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
-        }
-        self.current += 1; // consume the ']' char
-        self.add_token(TokenType::InlineStyle, true, 0)
+        self.add_macro(TokenType::InlineStyle)
     }
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_cross_reference(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(2) != ">>" && !self.is_at_end() {
+        let current_placeholder = self.current;
+        while self.peeks_ahead(2) != ">>" && !['\n', '\0'].contains(&self.peek()) {
             self.current += 1
         }
-        self.current += 2; // consume the '>>' chars
-        self.add_token(TokenType::CrossReference, true, 0)
+        if self.peeks_ahead(2) == ">>" {
+            self.current += 2; // consume the '>>' chars
+            self.add_token(TokenType::CrossReference, true, 0)
+        } else {
+            self.current = current_placeholder;
+            self.add_text_until_next_markup()
+        }
     }
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_block_anchor(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(3) != "]]\n" && !self.is_at_end() {
+        let current_placeholder = self.current;
+        while !['\n', '\0'].contains(&self.peek()) {
             self.current += 1
         }
-        self.current += 2; // consume the ']]' chars, NOT newline
-        self.add_token(TokenType::BlockAnchor, true, 0)
+        if self.source[self.start..self.current].ends_with("]]") {
+            // everything but the newline
+            self.add_token(TokenType::BlockAnchor, true, 0)
+        } else {
+            self.current = current_placeholder;
+            self.add_text_until_next_markup()
+        }
     }
 
     fn add_text_until_next_markup(&mut self) -> Result<Token, ScannerError> {
-- 
2.43.0


From e267744429c2be8ad7ecfa50d4da26bc6d711a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:40 +0000
Subject: [PATCH 12/82] fix: scan attributes and references at the end of the
 input without panicking

---
 src/scanner/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 2c9d291..57c6553 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -264,7 +264,7 @@ impl<'a> Scanner<'a> {
             }
             ':' => {
                 if self.starts_new_line() && self.starts_attr() {
-                    while self.peek() != '\n' {
+                    while self.peek() != '\n' && !self.is_at_end() {
                         // TK line continuation
                         self.current += 1
                     }
@@ -684,7 +684,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ':';
+        let check = self.peek() == ':';
         self.current = current_placeholder;
         check
     }
@@ -703,7 +703,7 @@ impl<'a> Scanner<'a> {
         while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == '}';
+        let check = self.peek() == '}';
         self.current = current_placeholder;
         check
     }
@@ -714,7 +714,7 @@ impl<'a> Scanner<'a> {
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ';';
+        let check = self.peek() == ';';
         self.current = current_placeholder;
         check
     }
-- 
2.43.0


From 0ffc7ac29fb4d7228eacb610243d3a8755bce6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:41 +0000
Subject: [PATCH 13/82] fix: only scan equals signs followed by a space as
 headings

---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 57c6553..8b39e28 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -487,6 +487,10 @@ impl<'a> Scanner<'a> {
         while self.peek() == '=' {
             self.current += 1
         }
+        // not a heading without the space
+        if self.peek() != ' ' {
+            return self.add_text_until_next_markup();
+        }
         self.current += 1; // add the space to the lexeme, but remove from count
         match self.source.as_bytes()[self.start..self.current - 1].len() {
             1 => self.add_token(TokenType::Heading1, false, 0),
-- 
2.43.0


From 400aa920efdce8046cbd77f74709745332211cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:43 +0000
Subject: [PATCH 14/82] fix: scan links and table cells of any length without
 recursion, and end links at the line end

---
 src/scanner/mod.rs | 48 +++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8b39e28..a8a1e26 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -541,46 +541,38 @@ impl<'a> Scanner<'a> {
 
     /// Adds contents into a TableCell token, regardless of other formatting (simpler to re-scan later)
     fn add_table_cell(&mut self) -> Result<Token, ScannerError> {
-        while !['\n', '\0', '|'].contains(&self.peek()) {
+        while !['\n', '\0'].contains(&self.peek()) {
+            // if the delimiter is |
+            if self.peek() == '|' && self.source.as_bytes()[self.current - 1] as char == ' ' {
+                break;
+            }
             self.current += 1
         }
-        // if the delimiter is |
-        if self.peek() == '|' && self.source.as_bytes()[self.current - 1] as char != ' ' {
-            self.current += 1;
-            return self.add_table_cell();
-        }
         self.add_token(TokenType::TableCell, true, 0)
     }
 
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
         let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while !['\0', ' '].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
-            self.current += 1
-        }
-        // it's an attribute-styled link
-        if self.peek() == '[' {
-            self.current += 1; // consume the '[' char
-            self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' '].contains(&self.peek()) {
-            self.add_token(TokenType::Hyperlink, true, 0)
-        } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
+        loop {
+            while !['\0', ' ', '\n'].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
+                self.current += 1
+            }
+            // it's an attribute-styled link
+            if self.peek() == '[' {
+                self.current += 1; // consume the '[' char
+                return self.add_token(TokenType::LinkMacro, true, 0);
+            } else if !hyperlink_allowed_punctuation.contains(&self.peek()) {
+                return self.add_token(TokenType::Hyperlink, true, 0);
+            }
             // if it's at the end of a sentence
             if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' '].contains(&second_char) {
-                    self.add_token(TokenType::Hyperlink, true, 0)
-                } else {
-                    // otherwise it contains an allowed url punctuation character
-                    self.current += 1; // consume the allowed character
-                    self.add_link()
+                if ['\0', ' ', '\n'].contains(&second_char) {
+                    return self.add_token(TokenType::Hyperlink, true, 0);
                 }
-            } else {
-                // otherwise it contains an allowed url punctuation character
-                self.current += 1; // consume the allowed character
-                self.add_link()
             }
-        } else {
-            self.add_token(TokenType::Hyperlink, true, 0)
+            // otherwise it contains an allowed url punctuation character
+            self.current += 1; // consume the allowed character
         }
     }
 
-- 
2.43.0


From 87f4c944d08285b9c594c5a02150edfc85f807a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:41 +0000
Subject: [PATCH 15/82] fix: scan include tags without leaving their line

---
 src/scanner/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index a8a1e26..1a450bd 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -628,22 +628,30 @@ impl<'a> Scanner<'a> {
 
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
-        if self.expecting_tag_end {
-            while self.peek() != 'e' {
+        self.current = self.start;
+        if self.starts_end_tag_line() {
+            // skip whatever comes before the tag
+            while self.peeks_ahead(5) != "end::" && !['\n', '\0'].contains(&self.peek()) {
                 self.current += 1;
             }
-            self.start = self.current;
-            self.startcol = self.start;
         }
-        while ![']'].contains(&self.peek()) && !self.is_at_end() {
+        let tag_start = self.current;
+        while ![']', '\n', '\0'].contains(&self.peek()) {
             self.current += 1;
         }
+        if self.peek() != ']' || !self.source[tag_start..self.current].ends_with('[') {
+            // not a tag after all
+            self.current = self.start + 1;
+            return self.add_text_until_next_markup();
+        }
         self.current += 1; // consume the ']' char
+        self.startcol += tag_start - self.start;
+        self.start = tag_start;
 
-        if (self.source[self.start..self.current]).contains("tag") {
+        if (self.source[self.start..self.current]).starts_with("tag::") {
             tag_type = TokenType::StartTag;
             self.expecting_tag_end = true;
-        } else if (self.source[self.start..self.current]).contains("end") {
+        } else if (self.source[self.start..self.current]).starts_with("end::") {
             tag_type = TokenType::EndTag;
             self.expecting_tag_end = false;
         } else {
@@ -651,13 +659,15 @@ impl<'a> Scanner<'a> {
                 self.source[self.start..self.current].to_string(),
             ));
         }
-        let result = self.add_token(tag_type, true, 1);
+        let result = self.add_token(tag_type, true, 0);
         // move to the end of the line
         while self.peek() != '\n' && !self.is_at_end() {
             self.current += 1
         }
         if self.peek() == '\n' {
-            self.current += 1
+            self.current += 1;
+            self.line += 1;
+            self.startcol = 1;
         }
         result
     }
-- 
2.43.0


From fb9b4422897ab79610a9128618eb202d62d3ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:11 +0000
Subject: [PATCH 16/82] fix: count the line breaks inside inline images

---
 src/scanner/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 1a450bd..c5a9cca 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -457,7 +457,8 @@ impl<'a> Scanner<'a> {
         if advance_line_after != 0 {
             let token_line = self.line;
             self.line += advance_line_after;
-            self.startcol = 1;
+            // the next token starts after the last line break
+            self.startcol = text.len() - text.rfind('\n').unwrap_or(0);
             token = Token {
                 token_type,
                 lexeme: text.to_string(),
@@ -516,7 +517,18 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        self.add_macro(TokenType::InlineImageMacro)
+        let current_placeholder = self.current;
+        while ![']', '\0'].contains(&self.peek()) && self.peeks_ahead(2) != "\n\n" {
+            self.current += 1
+        }
+        if self.peek() == ']' && self.source[self.start..self.current].contains('[') {
+            self.current += 1; // consume the ']' char
+            let newlines = self.source[self.start..self.current].matches('\n').count();
+            self.add_token(TokenType::InlineImageMacro, true, newlines)
+        } else {
+            self.current = current_placeholder;
+            self.add_text_until_next_markup()
+        }
     }
 
     /// Adds the include image, consuming the target as well as any attributes
-- 
2.43.0


From ac41b5742647496072b9b1b46c8e4491b0e4aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:47 +0000
Subject: [PATCH 17/82] fix: include description terms and captions in the
 inlines of a block

---
 src/graph/blocks.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index b13dc3e..1375834 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -318,11 +318,13 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.clone());
                 inlines.extend(block.principal.clone());
                 for child in block.blocks.iter() {
                     inlines.extend(child.inlines())
                 }
             }
+            Block::BlockMacro(block) => inlines.extend(block.caption.clone()),
             Block::LeafBlock(block) => inlines.extend(block.inlines.clone()),
             Block::TableCell(block) => inlines.extend(block.inlines.clone()),
             _ => {} // remaining blocks don't have inlines
@@ -363,11 +365,13 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.iter_mut());
                 inlines.extend(block.principal.iter_mut());
                 for child in block.blocks.iter_mut() {
                     inlines.extend(child.inlines_mut())
                 }
             }
+            Block::BlockMacro(block) => inlines.extend(block.caption.iter_mut()),
             Block::LeafBlock(block) => inlines.extend(block.inlines.iter_mut()),
             Block::TableCell(block) => inlines.extend(block.inlines.iter_mut()),
             _ => {} // remaining blocks don't have inlines
-- 
2.43.0


From 0a7aeb76d71128f799d14bb3ae3773522945e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:50 +0000
Subject: [PATCH 18/82] fix: count titles and terms, and words of adjacent
 blocks separately

---
 src/graph/blocks.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 1375834..3c10d4c 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -739,6 +739,7 @@ impl Block {
                 for inline in block.title() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -753,6 +754,7 @@ impl Block {
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -764,9 +766,15 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                for inline in block.terms.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -777,13 +785,20 @@ impl Block {
                 for inline in block.caption.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::LeafBlock(block) => {
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::ParentBlock(block) => {
+                for inline in block.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
                 }
@@ -793,6 +808,7 @@ impl Block {
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             _ => todo!(),
         }
-- 
2.43.0


From f4119d79bcf576e475c4d2ba14ad08931b951361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:52 +0000
Subject: [PATCH 19/82] fix: resolve cross references inside spans and links

---
 src/graph/inlines.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 33c53af..c87a599 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -244,14 +244,25 @@ impl Inline {
     }
 
     pub fn attempt_xref_standardization(&mut self, id_hash: &HashMap<String, Vec<Inline>>) {
-        if let Inline::InlineRef(iref) = self {
-            if matches!(iref.variant, InlineRefVariant::Xref) {
-                if let Some(ref_text) = id_hash.get(&iref.target) {
-                    iref.inlines = ref_text.clone()
-                } else {
-                    warn!("Unable to find xref: {}", iref.target)
+        match self {
+            Inline::InlineSpan(span) => {
+                for inline in span.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+            }
+            Inline::InlineRef(iref) => {
+                for inline in iref.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+                if matches!(iref.variant, InlineRefVariant::Xref) {
+                    if let Some(ref_text) = id_hash.get(&iref.target) {
+                        iref.inlines = ref_text.clone()
+                    } else {
+                        warn!("Unable to find xref: {}", iref.target)
+                    }
                 }
             }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From e8a16d6e5fd2422780a6aae7b0760589fb5ee357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:39 +0000
Subject: [PATCH 20/82] fix: extract footnotes from titles, terms, captions,
 cells and spans, and number them uniquely

---
 src/graph/blocks.rs | 107 +++++++++++++++++++++++++++++++-------------
 src/graph/lists.rs  |  55 +++++------------------
 2 files changed, 89 insertions(+), 73 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 3c10d4c..08cbcc3 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -5,7 +5,7 @@ use serde::Serialize;
 
 use crate::errors::{BlockError, ParserError};
 use crate::graph::{
-    inlines::Inline,
+    inlines::{Inline, InlineSpanVariant},
     lists::{DList, DListItem, List, ListItem, ListVariant},
     metadata::ElementMetadata,
     nodes::{Location, NodeTypes},
@@ -395,17 +395,25 @@ impl Block {
         match self {
             // parents
             Block::Section(block) => {
+                let title_footnotes =
+                    extract_inline_footnotes(&mut block.inlines, local_count, document_id);
+                local_count += title_footnotes.len();
+                extracted.extend(title_footnotes);
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
             }
             Block::ParentBlock(block) => {
+                let title_footnotes =
+                    extract_inline_footnotes(&mut block.title, local_count, document_id);
+                local_count += title_footnotes.len();
+                extracted.extend(title_footnotes);
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -413,7 +421,7 @@ impl Block {
             Block::List(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -421,44 +429,42 @@ impl Block {
             Block::DList(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
+                    local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
             }
             Block::ListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             Block::DListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             // nonparents
             Block::LeafBlock(block) => {
-                for idx in 0..block.inlines.len() {
-                    if block.inlines[idx].is_footnote() {
-                        local_count += 1;
-                        let inline_span = block.inlines.remove(idx);
-                        let Inline::InlineSpan(mut footnote) = inline_span else {
-                            return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                        };
-                        // deconstruct it
-                        let (definition_id, replacement_span, footnote_contents) =
-                            footnote.deconstruct_footnote(local_count, document_id);
-                        // add the relevant stuff to the return
-                        extracted.push(Block::LeafBlock(
-                            LeafBlock::new_footnote_def_from_id_and_inlines(
-                                definition_id,
-                                footnote_contents,
-                            ),
-                        ));
-                        // put the reference back where the span was
-                        block.inlines.insert(idx, replacement_span);
-                    }
-                }
+                extracted.extend(extract_inline_footnotes(
+                    &mut block.inlines,
+                    local_count,
+                    document_id,
+                ));
+            }
+            Block::TableCell(block) => {
+                extracted.extend(extract_inline_footnotes(
+                    &mut block.inlines,
+                    local_count,
+                    document_id,
+                ));
+            }
+            Block::BlockMacro(block) => {
+                extracted.extend(extract_inline_footnotes(
+                    &mut block.caption,
+                    local_count,
+                    document_id,
+                ));
             }
-            _ => todo!(), // placeholder; probably this is a list of panics that should never be
-                          // reached
+            _ => {} // remaining blocks don't have inlines
         }
 
         Ok(extracted)
@@ -816,6 +822,47 @@ impl Block {
     }
 }
 
+/// Replaces footnotes in the inlines (or nested inside of them) with references that continue the
+/// provided count, returning the footnote definitions
+pub(super) fn extract_inline_footnotes(
+    inlines: &mut [Inline],
+    footnote_count: usize,
+    document_id: &str,
+) -> Vec<Block> {
+    let mut extracted: Vec<Block> = Vec::new();
+    for inline in inlines.iter_mut() {
+        let local_count = footnote_count + extracted.len();
+        match inline {
+            Inline::InlineSpan(footnote) if footnote.variant == InlineSpanVariant::Footnote => {
+                // deconstruct it
+                let (definition_id, replacement_span, footnote_contents) =
+                    footnote.deconstruct_footnote(local_count + 1, document_id);
+                // add the relevant stuff to the return
+                extracted.push(Block::LeafBlock(
+                    LeafBlock::new_footnote_def_from_id_and_inlines(
+                        definition_id,
+                        footnote_contents,
+                    ),
+                ));
+                // put the reference where the span was
+                *inline = replacement_span;
+            }
+            Inline::InlineSpan(span) => extracted.extend(extract_inline_footnotes(
+                &mut span.inlines,
+                local_count,
+                document_id,
+            )),
+            Inline::InlineRef(iref) => extracted.extend(extract_inline_footnotes(
+                &mut iref.inlines,
+                local_count,
+                document_id,
+            )),
+            _ => {}
+        }
+    }
+    extracted
+}
+
 #[derive(Serialize, Clone, Debug)]
 pub struct Section {
     name: String,
diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index af53948..7b0d8f0 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -1,6 +1,6 @@
 use crate::errors::BlockError;
 use crate::graph::{
-    blocks::{Block, LeafBlock},
+    blocks::{Block, extract_inline_footnotes},
     inlines::Inline,
     nodes::{Location, NodeTypes},
 };
@@ -114,27 +114,10 @@ impl ListItem {
     ) -> Result<Vec<Block>, BlockError> {
         let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        let principal_footnotes =
+            extract_inline_footnotes(&mut self.principal, local_count, document_id);
+        local_count += principal_footnotes.len();
+        extracted.extend(principal_footnotes);
         for child in self.blocks.iter_mut() {
             let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
             local_count += child_footnoes.len();
@@ -246,27 +229,13 @@ impl DListItem {
     ) -> Result<Vec<Block>, BlockError> {
         let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        let term_footnotes = extract_inline_footnotes(&mut self.terms, local_count, document_id);
+        local_count += term_footnotes.len();
+        extracted.extend(term_footnotes);
+        let principal_footnotes =
+            extract_inline_footnotes(&mut self.principal, local_count, document_id);
+        local_count += principal_footnotes.len();
+        extracted.extend(principal_footnotes);
         for child in self.blocks.iter_mut() {
             let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
             local_count += child_footnoes.len();
-- 
2.43.0


From fedaf946f7fd362e502579e2df38b6f5d1bf04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:42 +0000
Subject: [PATCH 21/82] fix: keep the last row, and rows of a single cell, of
 tables in docx output

---
 src/backends/docx/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 52b7353..9507e3d 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -331,7 +331,7 @@ impl DocxWriter {
             let cell = TableCell::new().add_paragraph(para);
             current_row.push(cell);
             // see if we need a new row
-            if idx > 0 && (idx + 1) % cols == 0 && idx + 1 != num_cells {
+            if idx + 1 == num_cells || (cols > 0 && (idx + 1) % cols == 0) {
                 rows.push(TableRow::new(current_row.clone()));
                 current_row.clear()
             }
-- 
2.43.0


From c0c728416cbc3a532e12d19a8bf0a465b81df9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:42 +0000
Subject: [PATCH 22/82] fix: write titles, captions and stray cells to docx
 output

---
 src/backends/docx/document.rs | 57 ++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 9507e3d..641370b 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 use crate::graph::{
     blocks::{
-        Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlockName, ParentBlock,
+        self, Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlockName, ParentBlock,
         ParentBlockName, Section,
     },
     inlines::{Inline, InlineSpanVariant},
@@ -145,21 +145,19 @@ impl DocxWriter {
                 ParentBlockName::Sidebar => {
                     docx = self.add_parent_block(docx, parent, "Sidebar")?
                 }
-                ParentBlockName::Open => {
-                    for child in parent.blocks.iter() {
-                        docx = self.add_block_to_doc(docx, child)?
-                    }
+                ParentBlockName::Open | ParentBlockName::FootnoteContainer => {
+                    docx = self.add_open_block(docx, parent)?
                 }
                 ParentBlockName::Quote => docx = self.add_quote(docx, parent)?,
                 ParentBlockName::Table => docx = self.add_table(docx, parent)?,
-                ParentBlockName::FootnoteContainer => {} // should never appear in this context
             },
             Block::BlockMacro(block) => docx = self.add_block_macro(docx, block)?,
-            Block::TableCell(_) => {} // handled directly in the parent block
+            // cells of a table are handled directly in the parent block
+            Block::TableCell(cell) => docx = self.add_stray_cell(docx, cell)?,
             Block::BlockMetadata(_) => {} // not implemented by parser
-            Block::SectionBody => {}  // not implemented by parser
+            Block::SectionBody => {}      // not implemented by parser
             Block::NonSectionBlockBody(_) => {} // not implemented by parser
-            Block::DiscreteHeading => {} // not implemented by parser
+            Block::DiscreteHeading => {}  // not implemented by parser
         }
         Ok(docx)
     }
@@ -292,7 +290,40 @@ impl DocxWriter {
         Ok(docx)
     }
 
+    /// Adds the title of a parent block, if any, as a paragraph
+    fn add_title(&mut self, mut docx: Docx, parent: &ParentBlock) -> Result<Docx, DocxRenderError> {
+        if !parent.title.is_empty() {
+            let mut title = Paragraph::new();
+            title = self.add_inlines_to_para(title, parent.title.clone());
+            docx = self.add_paragraph(docx, title)?;
+        }
+        Ok(docx)
+    }
+
+    fn add_open_block(
+        &mut self,
+        mut docx: Docx,
+        parent: &ParentBlock,
+    ) -> Result<Docx, DocxRenderError> {
+        docx = self.add_title(docx, parent)?;
+        for child in parent.blocks.iter() {
+            docx = self.add_block_to_doc(docx, child)?
+        }
+        Ok(docx)
+    }
+
+    fn add_stray_cell(
+        &mut self,
+        docx: Docx,
+        cell: &blocks::TableCell,
+    ) -> Result<Docx, DocxRenderError> {
+        let mut para = Paragraph::new();
+        para = self.add_inlines_to_para(para, cell.inlines.clone());
+        self.add_paragraph(docx, para)
+    }
+
     fn add_quote(&mut self, mut docx: Docx, parent: &ParentBlock) -> Result<Docx, DocxRenderError> {
+        docx = self.add_title(docx, parent)?;
         docx = self.set_style(docx, DocumentStyles::Quote)?;
         for child in parent.blocks.iter() {
             docx = self.add_block_to_doc(docx, child)?
@@ -312,6 +343,7 @@ impl DocxWriter {
 
     fn add_table(&mut self, mut docx: Docx, table: &ParentBlock) -> Result<Docx, DocxRenderError> {
         // TODO: headers on tables
+        docx = self.add_title(docx, table)?;
         docx = self.set_style(docx, DocumentStyles::Table)?;
         let mut cols: usize = 0;
         if let Some(ref metadata) = table.metadata {
@@ -350,8 +382,11 @@ impl DocxWriter {
             let _ = img.read_to_end(&mut buf)?;
             let pic = Pic::new(&buf);
             docx = docx.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)));
-        } else {
-            todo!()
+        }
+        if !block.caption.is_empty() {
+            let mut caption = Paragraph::new();
+            caption = self.add_inlines_to_para(caption, block.caption.clone());
+            docx = self.add_paragraph(docx, caption)?;
         }
         Ok(docx)
     }
-- 
2.43.0


From ae3d4cdb9a09aa1abf101a84fbef077d0d349bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:54 +0000
Subject: [PATCH 23/82] fix: write an incomplete last row of a table after its
 cells

---
 src/backends/docx/document.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 641370b..9027a70 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -355,19 +355,21 @@ impl DocxWriter {
             }
         }
         let mut rows: Vec<TableRow> = vec![];
-        let num_cells = table.blocks.len();
         let mut current_row: Vec<TableCell> = vec![];
-        for (idx, block) in table.blocks.iter().enumerate() {
+        for block in table.blocks.iter() {
             let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());
             para = self.add_inlines_to_para(para, block.inlines());
             let cell = TableCell::new().add_paragraph(para);
             current_row.push(cell);
             // see if we need a new row
-            if idx + 1 == num_cells || (cols > 0 && (idx + 1) % cols == 0) {
-                rows.push(TableRow::new(current_row.clone()));
-                current_row.clear()
+            if current_row.len() == cols {
+                rows.push(TableRow::new(std::mem::take(&mut current_row)));
             }
         }
+        // the last row may be incomplete
+        if !current_row.is_empty() {
+            rows.push(TableRow::new(current_row));
+        }
         Ok(docx.add_table(Table::new(rows)))
     }
 
-- 
2.43.0


From 57d2dbed63ccc6a34668b3ac52e10833bf87a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:56 +0000
Subject: [PATCH 24/82] fix: only take the text of its own line into a block
 title

---
 src/parser.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e551d1..1e1ed92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -436,17 +436,16 @@ impl Parser {
     /// New line characters are arguably the most significant token "signal" we can get, and as
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        // newline exits a title, TK line continuation
-        self.in_block_line = false;
-
-        // if there is a block title, add the inline stack to the title
+        // if this is the line of a block title, add the inline stack to the title
         if let Some(ref mut title_stack) = self.block_title {
-            while !self.inline_stack.is_empty() {
-                let inline = self.inline_stack.pop_front().unwrap();
-                title_stack.push(inline);
+            if self.in_block_line && title_stack.is_empty() {
+                title_stack.extend(self.inline_stack.drain(..));
             }
         }
 
+        // newline exits a title, TK line continuation
+        self.in_block_line = false;
+
         if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
             self.dangling_newline = None;
-- 
2.43.0


From d743e7db1437c9941ca8a6ae8ce13d8ee3b97336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:58 +0000
Subject: [PATCH 25/82] fix: keep a list item that has no list on the stack

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1e1ed92..2a5159e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1432,8 +1432,9 @@ impl Parser {
         let last_item = self.block_stack.pop().unwrap();
         // if the last thing is a list item, add it to the list
         if matches!(last_item, Block::ListItem(_) | Block::DListItem(_)) {
-            if let Some(list) = self.block_stack.last_mut() {
-                list.push_block(last_item)?
+            match self.block_stack.last_mut() {
+                Some(list) => list.push_block(last_item)?,
+                None => self.block_stack.push(last_item),
             }
         } else {
             // otherwise return the list to the open block stack, and create a new unordered
-- 
2.43.0


From 2256b993dfc5084513e58b5264b1979f4746b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:00 +0000
Subject: [PATCH 26/82] fix: keep the text ahead of a comment block

---
 src/parser.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2a5159e..fef82db 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -186,7 +186,13 @@ impl Parser {
                         return Ok(());
                     }
                 }
-                TokenType::PassthroughBlock | TokenType::LiteralBlock | TokenType::CommentBlock => {
+                TokenType::CommentBlock => {
+                    // throw away everything inside of a comment
+                    if token.token_type() != token_type {
+                        return Ok(());
+                    }
+                }
+                TokenType::PassthroughBlock | TokenType::LiteralBlock => {
                     if token.token_type() != token_type {
                         self.pass_text_through(token)?;
                         return Ok(());
@@ -333,19 +339,16 @@ impl Parser {
             // comments
             TokenType::Comment => self.parse_comment(),
             TokenType::CommentBlock => {
-                // We treat a CommentBlock like a delimited LeafBlock, but throw away the result if
-                // we've got a match
-                if let Some(open_type) = self.open_parse_after_as_text_type {
-                    if open_type == TokenType::CommentBlock {
-                        self.inline_stack.clear();
-                        self.block_stack.pop();
+                if self.open_parse_after_as_text_type.is_some() {
+                    // don't add what follows to what came before, unless it is still open
+                    if self.inline_stack.is_empty() {
                         self.force_new_block = true;
-                        self.open_parse_after_as_text_type = None;
                     }
-                    Ok(())
+                    self.open_parse_after_as_text_type = None;
                 } else {
-                    self.parse_delimited_leaf_block(token)
+                    self.open_parse_after_as_text_type = Some(TokenType::CommentBlock);
                 }
+                Ok(())
             }
 
             TokenType::Eof => {
-- 
2.43.0


From beaa7e14bc5a3eb18ab6ac2241b1f609166259c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:20 +0000
Subject: [PATCH 27/82] fix: keep the metadata of a block that starts with a
 span

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index fef82db..549170b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -49,6 +49,8 @@ pub struct Parser {
     block_title: Option<Vec<Inline>>,
     /// holding ground for block metadata, to be applied to the subsequent block
     metadata: Option<ElementMetadata>,
+    /// holding ground for inline metadata, to be applied to the subsequent span
+    inline_metadata: Option<ElementMetadata>,
     /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
     /// unclosed at the end of the document
     open_delimited_block_lines: Vec<usize>,
@@ -105,6 +107,7 @@ impl Parser {
             file_stack: vec![],
             block_title: None,
             metadata: None,
+            inline_metadata: None,
             open_delimited_block_lines: vec![],
             level_offset: 0,
             in_block_line: false,
@@ -417,7 +420,7 @@ impl Parser {
         Ok(())
     }
     fn parse_inline_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
-        self.metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
+        self.inline_metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
         self.force_new_block = true;
         Ok(())
     }
@@ -850,9 +853,8 @@ impl Parser {
         // check for any other dangling spans (otherwise they disappear!)
         self.handle_dangling_spans();
         // add any metadata to new inline
-        if self.metadata.is_some() {
-            inline.add_metadata(self.metadata.as_ref().unwrap().clone());
-            self.metadata = None;
+        if let Some(metadata) = self.inline_metadata.take() {
+            inline.add_metadata(metadata);
         }
         self.inline_stack.push_back(inline);
 
-- 
2.43.0


From d3457c70053461a7eb7b4b97041b83b59df42142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:22 +0000
Subject: [PATCH 28/82] fix: apply metadata to blocks inside of sections, lists
 and continuations

---
 src/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 549170b..34dcdae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1195,6 +1195,9 @@ impl Parser {
     fn push_block_to_stack(&mut self, mut block: Block) -> Result<(), ParserError> {
         // we only want to push on continue if we're not in an open delimited block (which will
         // close itself, emptying the open_delimited_block_lines)
+        if let Some(metadata) = self.metadata.take() {
+            block.add_metadata(metadata)?;
+        }
         if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
             let Some(last_block) = self.block_stack.last_mut() else {
                 return Err(ParserError::BlockContinuation);
@@ -1202,10 +1205,6 @@ impl Parser {
             last_block.push_block(block)?;
             self.in_block_continuation = false;
         } else {
-            if self.metadata.is_some() {
-                block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-                self.metadata = None;
-            }
             self.block_stack.push(block)
         }
         Ok(())
@@ -1454,16 +1453,15 @@ impl Parser {
         asg: &mut Asg,
         mut block: Block,
     ) -> Result<(), ParserError> {
+        if let Some(metadata) = self.metadata.take() {
+            block.add_metadata(metadata)?;
+        }
         if let Some(last_block) = self.block_stack.last_mut() {
             if last_block.takes_block_of_type(&block) {
                 last_block.push_block(block)?;
                 return Ok(());
             }
         }
-        if self.metadata.is_some() {
-            block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-            self.metadata = None;
-        }
         asg.push_block(block)?;
         Ok(())
     }
-- 
2.43.0


From bc1a79cf80d6061f068a66c8d32b773e837c0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:12 +0000
Subject: [PATCH 29/82] fix: do not apply metadata to the block before it

---
 src/parser.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 34dcdae..1db919d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -469,16 +469,14 @@ impl Parser {
                 self.add_inlines_to_block_stack()?;
                 // and then force a new block hereafter
                 self.force_new_block = true;
-                if let Some(last_block) = self.block_stack.pop() {
+                if let Some(last_block) = self.block_stack.last() {
                     // check for dangling list items
                     if !last_block.is_section() && self.open_delimited_block_lines.is_empty() {
-                        self.add_to_block_stack_or_graph(asg, last_block)?;
+                        self.add_last_to_block_stack_or_graph(asg)?;
                         if self.close_parent_after_push && !self.block_stack.is_empty() {
                             self.add_last_to_block_stack_or_graph(asg)?;
                             self.close_parent_after_push = false;
                         }
-                    } else {
-                        self.push_block_to_stack(last_block)?
                     }
                 } // if Some(last_block)
             }
@@ -1482,11 +1480,7 @@ impl Parser {
     }
 
     fn add_last_block_to_graph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
-        if let Some(mut block) = self.block_stack.pop() {
-            if self.metadata.is_some() {
-                block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-                self.metadata = None;
-            }
+        if let Some(block) = self.block_stack.pop() {
             if let Some(next_last_block) = self.block_stack.last_mut() {
                 if next_last_block.takes_block_of_type(&block) {
                     next_last_block.push_block(block)?;
-- 
2.43.0


From 564d585f74f99101add8e1f7264678cc2fe879e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:15 +0000
Subject: [PATCH 30/82] fix: accept metadata on breaks

---
 src/graph/blocks.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 08cbcc3..124c34c 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -565,6 +565,13 @@ impl Block {
                     None
                 }
             }
+            Block::Break(block) => {
+                if let Some(metadata) = &block.metadata {
+                    metadata.attributes.get("id").cloned()
+                } else {
+                    None
+                }
+            }
             Block::BlockMacro(block) => {
                 if let Some(metadata) = &block.metadata {
                     metadata.attributes.get("id").cloned()
@@ -723,6 +730,7 @@ impl Block {
             Block::ListItem(block) => block.metadata = Some(metadata),
             Block::DList(block) => block.metadata = Some(metadata),
             Block::DListItem(block) => block.metadata = Some(metadata),
+            Block::Break(block) => block.metadata = Some(metadata),
             Block::BlockMacro(block) => block.metadata = Some(metadata),
             Block::LeafBlock(block) => block.metadata = Some(metadata),
             Block::ParentBlock(block) => block.metadata = Some(metadata),
@@ -932,6 +940,8 @@ pub struct Break {
     #[serde(rename = "type")]
     node_type: NodeTypes,
     pub variant: BreakVariant,
+    #[serde(skip_serializing_if = "Option::is_none")]
+    metadata: Option<ElementMetadata>,
     location: Vec<Location>,
 }
 
@@ -954,6 +964,7 @@ impl Break {
             name: "break".to_string(),
             node_type: NodeTypes::Block,
             variant,
+            metadata: None,
             location,
         }
     }
-- 
2.43.0


From 9878928113f41ada77eb5b3152fa6d485e88cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:17 +0000
Subject: [PATCH 31/82] fix: add delimited leaf blocks and paragraph metadata
 to continued list items

---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1db919d..02d4e72 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1095,8 +1095,12 @@ impl Parser {
             }
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
-            let block = LeafBlock::new_from_token(token)?;
-            self.push_block_to_stack(Block::LeafBlock(block))?;
+            let mut block = Block::LeafBlock(LeafBlock::new_from_token(token)?);
+            if let Some(metadata) = self.metadata.take() {
+                block.add_metadata(metadata)?;
+            }
+            // a block continuation only takes the block once it is closed
+            self.block_stack.push(block);
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
@@ -1386,6 +1390,9 @@ impl Parser {
             }
         }
         if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
+            if let Some(metadata) = self.metadata.take() {
+                para_block.add_metadata(metadata)?;
+            }
             let Some(last_block) = self.block_stack.last_mut() else {
                 return Err(ParserError::BlockContinuation);
             };
-- 
2.43.0


From 2961d237602e210e4b7eac0bc790d7a26ec0b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:19 +0000
Subject: [PATCH 32/82] fix: apply metadata to an admonition instead of the
 paragraph in it

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 02d4e72..7b26381 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -808,8 +808,11 @@ impl Parser {
     }
 
     fn parse_admonition_para_syntax(&mut self, token: Token) -> Result<(), ParserError> {
-        self.block_stack
-            .push(Block::ParentBlock(ParentBlock::new_from_token(token)?));
+        let mut block = Block::ParentBlock(ParentBlock::new_from_token(token)?);
+        if let Some(metadata) = self.metadata.take() {
+            block.add_metadata(metadata)?;
+        }
+        self.block_stack.push(block);
         self.close_parent_after_push = true;
         Ok(())
     }
-- 
2.43.0


From ac6c2d270588a3e334a459f4ee9f98c3bf14fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:21 +0000
Subject: [PATCH 33/82] fix: keep the header of a token stream that has nothing
 else

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7b26381..b075b46 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -149,6 +149,10 @@ impl Parser {
             }
         }
 
+        // move the header, if nothing followed it
+        if self.document_header.is_some() {
+            self.check_and_move_header(&mut asg)?;
+        }
         // add any dangling inlines
         self.add_inlines_to_block_stack()?;
         // add any dangling blocks (most often sections)
-- 
2.43.0


From 9ef94dc6ae5f0f26a7951b9bd8bb3ab3f94f853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:29 +0000
Subject: [PATCH 34/82] fix: end the block continuation after its paragraph

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index b075b46..4ff905f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1404,6 +1404,7 @@ impl Parser {
                 return Err(ParserError::BlockContinuation);
             };
             last_block.push_block(para_block)?;
+            self.in_block_continuation = false;
             return Ok(());
         }
 
-- 
2.43.0


From 3afdb92251e527c36794dc3cba115f3950dc37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:50 +0000
Subject: [PATCH 35/82] fix: keep a continued paragraph apart from the text of
 its list item

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ff905f..f575558 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1441,8 +1441,9 @@ impl Parser {
     }
 
     fn add_last_list_item_to_list(&mut self) -> Result<(), ParserError> {
-        // clear out any forced new blocks
-        self.force_new_block = false;
+        // clear out any forced new blocks, other than the one of a block continuation
+        self.force_new_block =
+            self.in_block_continuation && self.open_delimited_block_lines.is_empty();
         // add the inlines to the list item
         self.add_inlines_to_block_stack()?;
         // then add it to the list
-- 
2.43.0


From 0805c55df276cc134c3117811a7254132d64d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:35 +0000
Subject: [PATCH 36/82] fix: add the text of a list's first item to the item
 itself

---
 src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f575558..9307caa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -705,7 +705,8 @@ impl Parser {
             }
             self.push_block_to_stack(Block::List(list))?;
         }
-        // either way, add the new list item
+        // either way, add the new list item, which takes the text that follows
+        self.force_new_block = false;
         self.push_block_to_stack(Block::ListItem(list_item))
     }
     //
@@ -726,7 +727,8 @@ impl Parser {
                 token.locations().clone(),
             )))?;
         }
-        // either way, add the new list item
+        // either way, add the new list item, which takes the text that follows
+        self.force_new_block = false;
         self.push_block_to_stack(Block::ListItem(list_item))
     }
 
-- 
2.43.0


From 6d412e45f23373d0fd09e76c5269153af916675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:05 +0000
Subject: [PATCH 37/82] fix: keep the newline ahead of an inline macro or
 reference

---
 src/parser.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9307caa..0ac591b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -287,7 +287,7 @@ impl Parser {
             // breaks
             TokenType::PageBreak => self.parse_page_break(token, asg),
             TokenType::ThematicBreak => self.parse_thematic_break(token, asg),
-            TokenType::LineContinuation => {self
+            TokenType::LineContinuation => {self.add_dangling_newline(); self
                 .inline_stack
                 .push_back(Inline::InlineBreak(LineBreak::new_from_token(token)));Ok(())},
             // delimited blocks
@@ -832,6 +832,8 @@ impl Parser {
 
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
+        // a newline ahead of the span separates it from what came before
+        self.add_dangling_newline();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             if inline == *last_inline {
                 last_inline.reconcile_locations(inline.locations());
@@ -852,11 +854,6 @@ impl Parser {
                 return Ok(());
             }
         }
-        // handle newline tokens prior to constrained spans
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            self.add_text_to_last_inline(newline_token);
-            self.dangling_newline = None;
-        }
         // check for any other dangling spans (otherwise they disappear!)
         self.handle_dangling_spans();
         // add any metadata to new inline
@@ -870,6 +867,7 @@ impl Parser {
     }
 
     fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_macro_token(
                 token,
@@ -878,6 +876,7 @@ impl Parser {
     }
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         Ok(())
@@ -902,6 +901,7 @@ impl Parser {
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
                 target,
@@ -913,6 +913,7 @@ impl Parser {
     }
 
     fn parse_footnote_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
@@ -976,6 +977,7 @@ impl Parser {
     }
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         self.close_parent_after_push = true;
@@ -983,6 +985,7 @@ impl Parser {
     }
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         if let Some(value) = self.document_attributes.get("icons") {
             if value == "true" {
                 if let Some(_last_inline) = self.inline_stack.back_mut() {
@@ -1221,6 +1224,19 @@ impl Parser {
         Ok(())
     }
 
+    /// Add any newline ahead of an inline, so that the inline doesn't run into the line above
+    fn add_dangling_newline(&mut self) {
+        if let Some(newline_token) = self.dangling_newline.take() {
+            if self.preserve_newline_text {
+                self.inline_stack.push_back(Inline::InlineLiteral(
+                    InlineLiteral::new_text_from_token(&newline_token),
+                ));
+            } else {
+                self.add_text_to_last_inline(newline_token);
+            }
+        }
+    }
+
     fn add_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token(&token));
         if let Some(last_inline) = self.inline_stack.back_mut() {
-- 
2.43.0


From eb52f2f68ce01bb650c1ed6077e2cb7523cb66f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:13 +0000
Subject: [PATCH 38/82] fix: do not add spans to a span that is closed

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0ac591b..5c8f8a6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -834,7 +834,11 @@ impl Parser {
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
         // a newline ahead of the span separates it from what came before
         self.add_dangling_newline();
-        if let Some(last_inline) = self.inline_stack.back_mut() {
+        if let Some(last_inline) = self
+            .inline_stack
+            .back_mut()
+            .filter(|last_inline| last_inline.is_open())
+        {
             if inline == *last_inline {
                 last_inline.reconcile_locations(inline.locations());
                 last_inline.close();
-- 
2.43.0


From d00ff24ea5c925a6584d16d6edad53002ff7fa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:09 +0000
Subject: [PATCH 39/82] fix: combine the roles of two sets of metadata

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 474fe9a..80d4fe8 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -183,7 +183,7 @@ impl ElementMetadata {
         }
         // combine options and roles
         self.options.extend(incoming.options.clone());
-        self.roles.extend(incoming.options.clone());
+        self.roles.extend(incoming.roles.clone());
     }
 
     pub fn process_attributes(&mut self, mut attributes: Vec<String>) {
-- 
2.43.0


From 9abf0af5f6e17201dd87c2818f8cd7eb1285ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:12 +0000
Subject: [PATCH 40/82] fix: keep the role of a callout list that has metadata

---
 src/graph/blocks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 124c34c..37a067d 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -726,7 +726,11 @@ impl Block {
         }
         match self {
             Block::Section(block) => block.metadata = Some(metadata),
-            Block::List(block) => block.metadata = Some(metadata),
+            Block::List(block) => match block.metadata {
+                // i.e., the role of a callout list
+                Some(ref mut extant) => extant.add_metadata_from_other(&metadata),
+                None => block.metadata = Some(metadata),
+            },
             Block::ListItem(block) => block.metadata = Some(metadata),
             Block::DList(block) => block.metadata = Some(metadata),
             Block::DListItem(block) => block.metadata = Some(metadata),
-- 
2.43.0


From d3e71e51f55b40680063c933091cd18e5dde718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:31 +0000
Subject: [PATCH 41/82] fix: keep the newline ahead of a bracket that closes
 nothing

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c8f8a6..3c61fd7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -954,7 +954,7 @@ impl Parser {
             // and that the inline span is ended
             self.in_inline_span = false;
         } else {
-            self.add_text_to_last_inline(token);
+            self.parse_text(token)?;
         }
         Ok(())
     }
-- 
2.43.0


From 8459f9e5cd977f64a4a8d67269e32ecd05e03507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:50 +0000
Subject: [PATCH 42/82] fix: end the formatting of a nested span in docx output

---
 src/backends/docx/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 9027a70..396f138 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -503,6 +503,7 @@ impl DocxWriter {
                 for inline in span.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
+                variants.pop();
             }
             Inline::InlineBreak(_) => {
                 runs.push(Run::new().add_break(BreakType::TextWrapping));
-- 
2.43.0


From 68e086f6a08d1114c5dd3172db2c4706d8f821f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:59 +0000
Subject: [PATCH 43/82] fix: end the paragraph style of a block with the block
 in docx output

---
 src/backends/docx/document.rs | 3 +++
 src/backends/docx/styles.rs   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 396f138..3b5dfef 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -101,6 +101,8 @@ impl DocxWriter {
         mut docx: Docx,
         block: &Block,
     ) -> Result<Docx, DocxRenderError> {
+        // the style of a block ends with it
+        let style = self.current_style.clone();
         match block {
             Block::Section(section) => docx = self.add_section(docx, section)?,
             Block::List(list) => docx = self.add_list(docx, list)?,
@@ -159,6 +161,7 @@ impl DocxWriter {
             Block::NonSectionBlockBody(_) => {} // not implemented by parser
             Block::DiscreteHeading => {}  // not implemented by parser
         }
+        self.current_style = style;
         Ok(docx)
     }
 
diff --git a/src/backends/docx/styles.rs b/src/backends/docx/styles.rs
index 2fdc4ef..166d63f 100644
--- a/src/backends/docx/styles.rs
+++ b/src/backends/docx/styles.rs
@@ -3,7 +3,7 @@ use docx_rs::{
     Style, StyleType, TableCellProperty, TableProperty,
 };
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub enum DocumentStyles {
     Normal,
     NoSpacing,
-- 
2.43.0


From 3dfeedaee14f1862c10869a3472d00aa8f46db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:33 +0000
Subject: [PATCH 44/82] fix: refer to the style of a thematic break by its id
 in docx output

---
 src/backends/docx/styles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/docx/styles.rs b/src/backends/docx/styles.rs
index 166d63f..d0c6e72 100644
--- a/src/backends/docx/styles.rs
+++ b/src/backends/docx/styles.rs
@@ -40,7 +40,7 @@ impl DocumentStyles {
             DocumentStyles::OrderedListParagraph(id) => format!("NumberedListParagraph_{}", id),
             DocumentStyles::DefinitionTerm => "Definition Term".into(),
             DocumentStyles::Definition => "Definition".into(),
-            DocumentStyles::ThematicBreak => "ThematicBreak".into(),
+            DocumentStyles::ThematicBreak => "Thematic Break".into(),
             DocumentStyles::Table => "Table".into(),
         }
     }
-- 
2.43.0


From be0ead802df9c05048d65a971d8f4c0d712fba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:35 +0000
Subject: [PATCH 45/82] fix: define the numbering of every list in docx output

---
 src/backends/docx/document.rs  | 19 ++++++-------------
 src/backends/docx/numbering.rs | 10 ++++++++++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 3b5dfef..eb1db49 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -16,7 +16,7 @@ use crate::graph::{
     lists::{DListItem, List, ListItem, ListVariant},
 };
 
-use super::numbering::add_bullet_abstract_numbering;
+use super::numbering::{add_bullet_abstract_numbering, add_ordered_abstract_numbering};
 use super::styles::DocumentStyles;
 use super::units::{DXA_INCH, inches};
 
@@ -62,7 +62,6 @@ pub enum DocxRenderError {
 pub struct DocxWriter {
     page_break_before: bool,
     line_break_before: bool,
-    abstract_numbering: usize,
     numbering: usize,
     current_style: DocumentStyles,
 }
@@ -78,7 +77,6 @@ impl DocxWriter {
         DocxWriter {
             page_break_before: false,
             line_break_before: false,
-            abstract_numbering: 0,
             numbering: 0,
             current_style: DocumentStyles::Normal,
         }
@@ -169,21 +167,16 @@ impl DocxWriter {
         self.numbering += 1;
         match list.variant {
             ListVariant::Ordered | ListVariant::Callout => {
-                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?
+                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;
+                docx = docx.add_abstract_numbering(add_ordered_abstract_numbering(self.numbering));
             }
             ListVariant::Unordered => {
                 docx = self.set_style(docx, DocumentStyles::ListParagraph)?;
-                if self.abstract_numbering == 0 {
-                    // really only do this once
-                    self.abstract_numbering += 1;
-                    docx = docx
-                        .add_abstract_numbering(add_bullet_abstract_numbering(
-                            self.abstract_numbering,
-                        ))
-                        .add_numbering(Numbering::new(self.numbering, self.abstract_numbering))
-                }
+                docx = docx.add_abstract_numbering(add_bullet_abstract_numbering(self.numbering));
             }
         }
+        // the items refer to this
+        docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));
         for item in list.items.iter() {
             docx = self.add_block_to_doc(docx, item)?
         }
diff --git a/src/backends/docx/numbering.rs b/src/backends/docx/numbering.rs
index 9759e54..5b6e5b7 100644
--- a/src/backends/docx/numbering.rs
+++ b/src/backends/docx/numbering.rs
@@ -12,6 +12,16 @@ pub fn add_bullet_abstract_numbering(id: usize) -> AbstractNumbering {
     ))
 }
 
+pub fn add_ordered_abstract_numbering(id: usize) -> AbstractNumbering {
+    AbstractNumbering::new(id).add_level(Level::new(
+        0,
+        Start::new(1),
+        NumberFormat::new("decimal"),
+        LevelText::new("%1."),
+        LevelJc::new("start"),
+    ))
+}
+
 // // Add the concrete numbering instance that references the abstract numbering.
 // // The id (1 in this case) links this specific numbering to the abstract definition.
 // docx = docx.add_numbering(docx_rs::Numbering::new(1, 1));
-- 
2.43.0


From e5b7860f1b6cc4bbe140269e5617405e03939d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:36 +0000
Subject: [PATCH 46/82] fix: keep the formatting around sub- and superscripts
 in docx output

---
 src/backends/docx/document.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index eb1db49..b59b298 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -2,7 +2,7 @@ use std::{fs::File, io::Read};
 
 use docx_rs::{
     BreakType, Docx, Header, IndentLevel, LineSpacing, Numbering, NumberingId, PageMargin, PageNum,
-    Paragraph, Pic, Run, RunFonts, RunProperty, Style, Table, TableCell, TableRow, VertAlignType,
+    Paragraph, Pic, Run, RunFonts, Style, Table, TableCell, TableRow, VertAlignType,
 };
 use once_cell::sync::Lazy;
 use regex::Regex;
@@ -477,11 +477,11 @@ impl DocxWriter {
                             InlineSpanVariant::Mark => run = run.highlight("yellow"),
                             InlineSpanVariant::Subscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SubScript)
+                                    run.run_property.vert_align(VertAlignType::SubScript)
                             }
                             InlineSpanVariant::Superscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SuperScript)
+                                    run.run_property.vert_align(VertAlignType::SuperScript)
                             }
                             InlineSpanVariant::Footnote => {
                                 eprintln!(
-- 
2.43.0


From 5bd383461efb0e9327cb5540aa154e9baa5e5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:28 +0000
Subject: [PATCH 47/82] fix: keep titles with a styled span in their section

---
 src/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c61fd7..18686cd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -425,7 +425,6 @@ impl Parser {
     }
     fn parse_inline_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
         self.inline_metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
-        self.force_new_block = true;
         Ok(())
     }
 
-- 
2.43.0


From 037e95f8c9fd975a7a99200a9133144bebe83c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:30 +0000
Subject: [PATCH 48/82] fix: apply inline metadata to the span that follows it,
 nested or not

---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 18686cd..e4c7dba 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -833,19 +833,24 @@ impl Parser {
     fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
         // a newline ahead of the span separates it from what came before
         self.add_dangling_newline();
+        // metadata belongs to the span it precedes, which it opens
+        let opens = self.inline_metadata.is_some();
+        if let Some(metadata) = self.inline_metadata.take() {
+            inline.add_metadata(metadata);
+        }
         if let Some(last_inline) = self
             .inline_stack
             .back_mut()
             .filter(|last_inline| last_inline.is_open())
         {
-            if inline == *last_inline {
+            if !opens && inline == *last_inline {
                 last_inline.reconcile_locations(inline.locations());
                 last_inline.close();
                 self.in_inline_span = false;
                 return Ok(());
             } else if let Inline::InlineSpan(last_span) = last_inline {
                 if let Some(last_internal_inline) = last_span.inlines.last_mut() {
-                    if inline == *last_internal_inline {
+                    if !opens && inline == *last_internal_inline {
                         last_internal_inline.reconcile_locations(inline.locations());
                         last_internal_inline.close();
                     } else {
@@ -859,10 +864,6 @@ impl Parser {
         }
         // check for any other dangling spans (otherwise they disappear!)
         self.handle_dangling_spans();
-        // add any metadata to new inline
-        if let Some(metadata) = self.inline_metadata.take() {
-            inline.add_metadata(metadata);
-        }
         self.inline_stack.push_back(inline);
 
         self.in_inline_span = true;
-- 
2.43.0


From 44a1cc990782e754235fea4a1ee8ce24513b1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:06 +0000
Subject: [PATCH 49/82] fix: end the level offset of an include with the
 included file

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index e4c7dba..10ae71b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -527,6 +527,8 @@ impl Parser {
         let mut current_tag: Option<String> = None;
 
         let (target, meta) = target_and_attrs_from_token(&token);
+        // an offset given here ends with the included file
+        let level_offset = self.level_offset;
         // check for level offsets in the include
         if let Some(metadata) = meta {
             if let Some(value) = metadata.attributes.get("leveloffset") {
@@ -632,6 +634,7 @@ impl Parser {
         }
         // ...then pop the file off the stack
         self.file_stack.pop();
+        self.level_offset = level_offset;
         Ok(())
     }
 
-- 
2.43.0


From 34fedebede6d2686921dc279be5ae52c95c8eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:26:08 +0000
Subject: [PATCH 50/82] fix: report files that include each other instead of
 overflowing the stack

---
 src/errors.rs | 2 ++
 src/parser.rs | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index a348036..f89463f 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -52,6 +52,8 @@ pub enum ParserError {
     HeadingOffsetError(usize, i8),
     #[error("Parse error line {0}: Unable to resolve target: {1:?}")]
     TargetResolution(usize, String),
+    #[error("Parse error line {0}: Includes are nested too deeply: {1:?}")]
+    IncludeDepth(usize, String),
     #[error("Parser error: Tried to add last block when block stack was empty.")]
     BlockStack,
     #[error("Parse error: invalid block continuation; no previous block")]
diff --git a/src/parser.rs b/src/parser.rs
index 10ae71b..ed2694c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -26,6 +26,9 @@ use crate::{
     utils::{extract_page_ranges, target_and_attrs_from_token},
 };
 
+/// How deeply include directives can be nested
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 /// Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph), returning the graph once all
 /// tokens have been parsed.
 #[derive(Debug)]
@@ -554,6 +557,11 @@ impl Parser {
             }
         }
 
+        // files that include each other would never end
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(ParserError::IncludeDepth(token.line, target));
+        }
+
         // calculate target, given that it's relative; if there is something on the stack, use
         // that, else use self.origin
         let resolved_target = self.resolve_target(token.line, &target)?;
-- 
2.43.0


From b347305bea78e70c9f30a5a0671fe15ec9794b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:49 +0000
Subject: [PATCH 51/82] fix: render the container of a footnote's blocks as a
 div in HTML output

---
 templates/htmlbook/block.html.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index d70f7f7..6e847c1 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -38,7 +38,7 @@ this should work.
     {%- elif block.variant == "unordered" -%}
     {%- set tag = "ul" -%}
     {%- endif -%}
-    {%- elif block.name == "open" -%}
+    {%- elif block.name in ["open", "footnotecontainer"] -%}
     {%- set tag = "div" -%}
     {%- elif block.name == "listItem" -%}
     {%- set tag = "li" -%}
-- 
2.43.0


From 41b673e619f8b16ed4753e164beaf7f2a6909bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:51 +0000
Subject: [PATCH 52/82] fix: keep the tags of the lists and images in an
 admonition in HTML output

---
 templates/htmlbook/block.html.tera | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index 6e847c1..86bbd3c 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -13,6 +13,7 @@ this should work.
 {%- import "tables.html.tera" as table_macros -%}
 {%- macro process_block(block, skip_tag) -%}
 {%- set local_skip_tag = false -%}
+{%- set omit_tag = skip_tag and block.name in ["example", "open", "quote", "sidebar"] -%}
 {#- Handle breaks separately; makes the logic easier -#}
 {%- if block.name in ["paragraph", "listing", "verse", "pass", "literal"] %}
     {{ leaf_block_macros::process_leaf_block(block=block) }}
@@ -72,7 +73,7 @@ this should work.
     {% else %}
     {%- set tag = "UNHANDLED" -%}
     {%- endif %}
-        {%- if tag and not skip_tag -%}<{{tag}}
+        {%- if tag and not omit_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
     {%- if id %} id="{{ id }}" {%- endif -%}
@@ -120,7 +121,7 @@ this should work.
         {%- endif -%}
     </p>
     {%- endif -%}
-    {%- if tag and not skip_tag -%}</{{tag}}>{%- endif -%}
+    {%- if tag and not omit_tag -%}</{{tag}}>{%- endif -%}
     {% if block.name == "section" %}
     {% if block.blocks -%}
     {% for child_block in block.blocks %}
-- 
2.43.0


From da1b7f8c8e580d11c5892a5a89cfbf3d9d03f911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:53 +0000
Subject: [PATCH 53/82] fix: render tables without a usable number of columns
 in HTML output

---
 templates/htmlbook/tables.html.tera | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9d3c056..90fbed6 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -1,7 +1,10 @@
 {%- import "inline.html.tera" as inline_macros -%}
 {%- macro process_table(block) -%}
 {#- Collect Cells into rows; should be save to assume that all tables have a cols attr -#}
-{% set cols = block.metadata.attributes.cols | int %}
+{% set cols = block.metadata.attributes.cols | default(value="1") | int(default=1) %}
+{%- if cols < 1 -%}
+{%- set cols = 1 -%}
+{%- endif -%}
 {%- set body_start = 0 -%}
 {%- if "header" in block.metadata.options -%}
 {%- set header = true -%}
-- 
2.43.0


From f4290949d4c61e14687cb4db37c762cd2665194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:56 +0000
Subject: [PATCH 54/82] fix: render tables without metadata in HTML output

---
 templates/htmlbook/tables.html.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 90fbed6..8910068 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -6,7 +6,7 @@
 {%- set cols = 1 -%}
 {%- endif -%}
 {%- set body_start = 0 -%}
-{%- if "header" in block.metadata.options -%}
+{%- if block.metadata.options and "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
 {%- endif -%}
-- 
2.43.0


From 9bb9e2421f78985efc67f25f9fdaaf2c537c1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:58 +0000
Subject: [PATCH 55/82] fix: render the title of a table in HTML output

---
 templates/htmlbook/tables.html.tera | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 8910068..5c9cb03 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -10,7 +10,12 @@
 {%- set header = true -%}
 {%- set body_start = cols -%}
 {%- endif -%}
-    <table>{% if header %}
+    <table>
+    {%- if block.title %}
+    <caption>{%- for inline in block.title -%}
+        {{- inline_macros::process_inline(inline=inline) -}}
+        {%- endfor -%}</caption>
+    {%- endif %}{% if header %}
     <thead>
         {% for idx in range(start=0, end=body_start) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
-- 
2.43.0


From 3551b23790ecdf0484fc4abf8dee330454ea2cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:30 +0000
Subject: [PATCH 56/82] fix: close links and footnotes at their closing bracket

---
 src/graph/inlines.rs | 14 +++++++++++---
 src/parser.rs        |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index c87a599..c53cb1d 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -91,8 +91,8 @@ impl Inline {
 
     pub fn is_macro(&self) -> bool {
         match self {
-            Inline::InlineRef(iref) => iref.variant == InlineRefVariant::Link,
-            Inline::InlineSpan(span) => span.variant == InlineSpanVariant::Footnote,
+            Inline::InlineRef(iref) => iref.variant == InlineRefVariant::Link && iref.open,
+            Inline::InlineSpan(span) => span.variant == InlineSpanVariant::Footnote && span.open,
             _ => false,
         }
     }
@@ -239,6 +239,7 @@ impl Inline {
     pub fn close(&mut self) {
         match self {
             Inline::InlineSpan(span) => span.open = false,
+            Inline::InlineRef(iref) => iref.open = false,
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -530,6 +531,8 @@ pub struct InlineRef {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
     location: Vec<Location>,
+    #[serde(skip)]
+    open: bool,
 }
 
 impl InlineRef {
@@ -542,6 +545,7 @@ impl InlineRef {
             inlines: vec![],
             metadata: None,
             location,
+            open: false,
         }
     }
 
@@ -565,6 +569,7 @@ impl InlineRef {
             inlines: vec![numbering],
             metadata,
             location,
+            open: false,
         }
     }
 
@@ -576,7 +581,9 @@ impl InlineRef {
     pub fn new_link_from_macro_token(token: Token) -> Self {
         let mut target = token.text();
         target.pop(); // remove trailing '['
-        InlineRef::new(InlineRefVariant::Link, target, token.locations())
+        let mut link = InlineRef::new(InlineRefVariant::Link, target, token.locations());
+        link.open = true; // until the "]"
+        link
     }
 
     pub fn new_link_from_token(token: Token) -> Self {
@@ -598,6 +605,7 @@ impl InlineRef {
                 inlines: vec![],
                 metadata,
                 location,
+                open: false,
             }
         } else {
             InlineRef::new(InlineRefVariant::Image, target, location)
diff --git a/src/parser.rs b/src/parser.rs
index ed2694c..39484ac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -958,6 +958,8 @@ impl Parser {
             }
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
+            // a later "]" is just text
+            inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
             // note that we're now closed
-- 
2.43.0


From 58a737b40a5eaedfbf248635186a073b77252be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:47 +0000
Subject: [PATCH 57/82] fix: keep the markup of unclosed spans that don't begin
 with text

---
 src/graph/inlines.rs | 17 ++++++++---------
 src/parser.rs        |  7 ++++++-
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index c53cb1d..9d548c9 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -171,7 +171,7 @@ impl Inline {
                     InlineSpanVariant::Code => "`".to_string(),
                     InlineSpanVariant::Superscript => "^".to_string(),
                     InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => todo!(), // not applicable
+                    InlineSpanVariant::Footnote => "footnote:[".to_string(),
                 };
                 if span.node_form == InlineSpanForm::Unconstrained {
                     literal = literal
@@ -435,15 +435,14 @@ impl InlineSpan {
                 let mut working_inline = inline.clone();
                 let open_span_literal = working_inline.produce_literal_from_self();
                 let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(inline) = inline_children.front_mut() {
-                    match inline {
-                        Inline::InlineLiteral(literal) => {
-                            literal.prepend_to_value(open_span_literal, literal.location.clone());
-                        }
-                        _ => todo!(),
-                    }
+                if let Some(Inline::InlineLiteral(literal)) = inline_children.front_mut() {
+                    literal.prepend_to_value(open_span_literal, literal.location.clone());
                 } else {
-                    todo!()
+                    inline_children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        working_inline.locations(),
+                    )));
                 }
                 children.extend(inline_children);
             } else {
diff --git a/src/parser.rs b/src/parser.rs
index 39484ac..3c70bfe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1341,7 +1341,12 @@ impl Parser {
                     Inline::InlineLiteral(literal) => {
                         literal.prepend_to_value(open_span_literal, open_span.locations());
                     }
-                    _ => todo!(),
+                    // ... or ahead of it, if it doesn't take text
+                    _ => children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        open_span.locations(),
+                    ))),
                 }
                 // put any appended inlines into the stack at the relevant position
                 while children.len() > 0 {
-- 
2.43.0


From 1486386e405e6d4e19bd91f33dac185e3e2ada5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:50 +0000
Subject: [PATCH 58/82] fix: allow text after images, references and breaks
 inside a link

---
 src/graph/inlines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 9d548c9..bdf9838 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -632,7 +632,7 @@ impl InlineRef {
                     true => prior_literal.pass_text_from_token(&token),
                     false => prior_literal.add_text_from_token(&token),
                 },
-                _ => panic!("Can't add text to last token in this context"),
+                _ => self.inlines.push(inline_literal),
             }
         } else {
             self.inlines.push(inline_literal)
-- 
2.43.0


From a2e4fb67804054e21bb87aa4580b537e3977bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:53 +0000
Subject: [PATCH 59/82] fix: don't treat code callouts as unclosed spans

---
 src/graph/inlines.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index bdf9838..8bbef05 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -378,6 +378,7 @@ impl InlineSpan {
                     token.locations(),
                 );
                 code_span.metadata = Some(metadata);
+                code_span.open = false;
                 code_span
                     .inlines
                     .push(Inline::InlineLiteral(InlineLiteral::new(
-- 
2.43.0


From ff5d21ae9d589dd8d938ba48eaf2e10d97daffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:22 +0000
Subject: [PATCH 60/82] fix: keep the markup of spans left unclosed ahead of an
 empty line or a link

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c70bfe..f926e58 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1398,7 +1398,7 @@ impl Parser {
         }
 
         // dangling inlines
-        if self.in_inline_span {
+        while self.inline_stack.iter().any(|inline| inline.is_open()) {
             self.handle_dangling_spans();
         }
 
-- 
2.43.0


From 7ae200606e07c48e3dddca224cb2e937a0751c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:42 +0000
Subject: [PATCH 61/82] fix: keep the markup of empty unclosed spans in its
 place

---
 src/parser.rs | 72 ++++++++++++++++++---------------------------------
 1 file changed, 25 insertions(+), 47 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f926e58..a33613f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1335,59 +1335,37 @@ impl Parser {
             let open_span_literal = open_span.produce_literal_from_self();
             // put the literal char into the stack as a literal...
             let mut children = open_span.extract_child_inlines();
-            // ... by adding it to the next inline
-            if let Some(inline) = children.front_mut() {
-                match inline {
-                    Inline::InlineLiteral(literal) => {
-                        literal.prepend_to_value(open_span_literal, open_span.locations());
-                    }
-                    // ... or ahead of it, if it doesn't take text
-                    _ => children.push_front(Inline::InlineLiteral(InlineLiteral::new(
-                        InlineLiteralName::Text,
-                        open_span_literal,
-                        open_span.locations(),
-                    ))),
-                }
-                // put any appended inlines into the stack at the relevant position
-                while children.len() > 0 {
-                    if let Some(child) = children.pop_back() {
-                        self.inline_stack.insert(open_span_idx, child);
-                    }
-                }
+            // ... by adding it to the next inline, or ahead of it if it doesn't take text
+            if let Some(Inline::InlineLiteral(literal)) = children.front_mut() {
+                literal.prepend_to_value(open_span_literal, open_span.locations());
+            } else {
+                children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                    InlineLiteralName::Text,
+                    open_span_literal,
+                    open_span.locations(),
+                )));
+            }
+            // put any appended inlines into the stack at the relevant position
+            while let Some(child) = children.pop_back() {
+                self.inline_stack.insert(open_span_idx, child);
+            }
 
-                // consolidate any resultant or remaining adjacent literals (this should be extracted to a function)
-                let mut temp_stack: Vec<Inline> = vec![];
-                while let Some(mut inline) = self.inline_stack.pop_front() {
-                    if temp_stack.len() == 0 {
-                        temp_stack.push(inline);
-                    } else if inline.is_literal() {
-                        if let Some(Inline::InlineLiteral(last_in_stack)) = temp_stack.last_mut() {
-                            last_in_stack.combine_literals(inline.extract_literal());
-                        } else {
-                            temp_stack.push(inline);
-                        }
+            // consolidate any resultant or remaining adjacent literals (this should be extracted to a function)
+            let mut temp_stack: Vec<Inline> = vec![];
+            while let Some(mut inline) = self.inline_stack.pop_front() {
+                if temp_stack.len() == 0 {
+                    temp_stack.push(inline);
+                } else if inline.is_literal() {
+                    if let Some(Inline::InlineLiteral(last_in_stack)) = temp_stack.last_mut() {
+                        last_in_stack.combine_literals(inline.extract_literal());
                     } else {
                         temp_stack.push(inline);
                     }
+                } else {
+                    temp_stack.push(inline);
                 }
-                self.inline_stack = temp_stack.into();
-            } else {
-                // ... or if there are no children, add the token to the back of the last one; this
-                // is a little hacky, but it is cleaner compared to the rest of the code just to
-                // create a token and reuse the existing function
-                let (line, startcol, endcol) =
-                    Location::destructure_inline_locations(open_span.locations());
-                let reconstituted_token = Token {
-                    token_type: TokenType::Text,
-                    lexeme: open_span_literal.clone(),
-                    literal: Some(open_span_literal),
-                    line,
-                    startcol,
-                    endcol,
-                    file_stack: self.file_stack.clone(),
-                };
-                self.add_text_to_last_inline(reconstituted_token)
             }
+            self.inline_stack = temp_stack.into();
         }
     }
 
-- 
2.43.0


From 96f967d4029a1e251b7d5547c435e386558c97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:13 +0000
Subject: [PATCH 62/82] fix: don't slice attributes inside of a character

---
 src/graph/metadata.rs | 13 +++++++------
 src/utils.rs          |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 80d4fe8..e22bf78 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -200,8 +200,8 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match &attribute[..2] {
-                            "so" | "qu" | "ve" => {
+                        match attribute.get(..2) {
+                            Some("so" | "qu" | "ve") => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
                             }
@@ -240,7 +240,7 @@ impl ElementMetadata {
             }
             _ => {
                 if attribute.starts_with('"') {
-                    *attribute = attribute[1..attribute.len() - 1].to_string()
+                    *attribute = attribute.trim_matches('"').to_string()
                 }
                 self.attributes
                     .insert(format!("positional_{}", idx + 1), attribute.to_string());
@@ -256,9 +256,10 @@ impl ElementMetadata {
                     "cols".to_string(),
                     format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
                 );
-            } else if cols_value.len() == 2 && cols_value[1..] == *"*" {
-                self.attributes
-                    .insert("cols".to_string(), cols_value[..1].to_string());
+            } else if let Some(cols) = cols_value.strip_suffix('*') {
+                if cols.len() == 1 {
+                    self.attributes.insert("cols".to_string(), cols.to_string());
+                }
             }
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index 58b08f0..963ce7c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -17,7 +17,7 @@ pub fn key_values_from_named_attribute(
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
             if values_str.starts_with('"') {
-                values_str = &values_str[1..values_str.len() - 1]
+                values_str = values_str.trim_matches('"')
             }
             Ok((
                 named.to_string(),
-- 
2.43.0


From b260f20d31055e685f02a0c70d80dee79e2b5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:16 +0000
Subject: [PATCH 63/82] fix: ignore further positional attributes of quotes and
 verses

---
 src/graph/metadata.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index e22bf78..255a748 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -230,8 +230,6 @@ impl ElementMetadata {
                 } else if idx == 2 {
                     self.attributes
                         .insert(String::from("citation"), String::from(attribute.trim()));
-                } else {
-                    todo!(); // or panic?
                 }
             }
             Some(AttributeType::Lines) => {
-- 
2.43.0


From c48e8f676ad031c4479cd86dbf4759898ef3fed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:18 +0000
Subject: [PATCH 64/82] fix: don't panic on code callouts when icons are set

---
 src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a33613f..d8ac05c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1005,10 +1005,8 @@ impl Parser {
         self.add_dangling_newline();
         if let Some(value) = self.document_attributes.get("icons") {
             if value == "true" {
-                if let Some(_last_inline) = self.inline_stack.back_mut() {
-                    // handle deleting comment markup, IF we're handling icons
-                    todo!();
-                }
+                // TODO handle deleting comment markup, IF we're handling icons
+                warn!("Code callout icons are not supported");
             }
         }
         self.inline_stack
-- 
2.43.0


From 4ee3d20b9cc774e96a6cf1be1e835be30d6c452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:20 +0000
Subject: [PATCH 65/82] fix: don't overflow the heading level offset

---
 src/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d8ac05c..bbff9f7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -397,13 +397,13 @@ impl Parser {
 
     fn parse_level_offset(&mut self, value: &str) -> Result<(), ParserError> {
         if let Ok(value) = value.parse::<usize>() {
-            self.level_offset = value as i8;
+            self.level_offset = i8::try_from(value).unwrap_or(i8::MAX);
             Ok(())
         } else {
             match value.parse::<i8>() {
                 // absolute value
                 Ok(value) => {
-                    self.level_offset += value;
+                    self.level_offset = self.level_offset.saturating_add(value);
                     Ok(())
                 }
                 // relative value, or error
@@ -794,10 +794,10 @@ impl Parser {
     fn get_heading_level(&self, token: &Token) -> Result<usize, ParserError> {
         let level: i8 = match token.token_type() {
             TokenType::Heading1 => self.level_offset,
-            TokenType::Heading2 => 1 + self.level_offset,
-            TokenType::Heading3 => 2 + self.level_offset,
-            TokenType::Heading4 => 3 + self.level_offset,
-            TokenType::Heading5 => 4 + self.level_offset,
+            TokenType::Heading2 => self.level_offset.saturating_add(1),
+            TokenType::Heading3 => self.level_offset.saturating_add(2),
+            TokenType::Heading4 => self.level_offset.saturating_add(3),
+            TokenType::Heading5 => self.level_offset.saturating_add(4),
             _ => {
                 return Err(ParserError::InternalError(
                     "Inavlid token given to parse_section_headings".to_string(),
-- 
2.43.0


From a47d57f1bde11d98e2d11e6afe30a9d1d74cd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:23 +0000
Subject: [PATCH 66/82] fix: don't underflow the end of an empty attribute

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bbff9f7..95452ae 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -984,7 +984,7 @@ impl Parser {
             token.literal = Some(value.clone());
             // update the ending col, adding the new value and then subtracting one because of
             // indexing
-            token.endcol = token.startcol + value.len() - 1;
+            token.endcol = (token.startcol + value.len()).saturating_sub(1);
         } else {
             warn!("Missing document attribute: {}", attribute_target);
         }
-- 
2.43.0


From 58fdce80848568855a1b744c6b78258d6ab4f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:26 +0000
Subject: [PATCH 67/82] fix: don't overflow the last line of an include

---
 src/utils.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 963ce7c..593c591 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -77,14 +77,13 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
             let start = parts[0].parse::<i32>().unwrap_or(0);
             if parts.len() == 2 {
                 // if there is an end value
-                if let Ok(mut end) = parts[1].parse::<i32>() {
+                if let Ok(end) = parts[1].parse::<i32>() {
                     if end == -1 {
                         // if we're reading to the end, read to the end
                         ranges.push(start);
                         ranges.push(-1);
                     } else {
-                        end += 1; // because we want an inclusive range 
-                        ranges.extend(start..end)
+                        ranges.extend(start..=end) // because we want an inclusive range
                     }
                 } else if captured_ranges.peek().is_none() {
                     ranges.push(start);
-- 
2.43.0


From 4a24e51c75e7fea1a3dbe4999e87173e87202ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:41 +0000
Subject: [PATCH 68/82] fix: keep verses together across empty lines

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 95452ae..045cd36 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -176,7 +176,15 @@ impl Parser {
         if let Some(token_type) = self.open_parse_after_as_text_type {
             match token_type {
                 TokenType::QuoteVerseBlock => {
-                    if token.token_type() == TokenType::QuoteVerseBlock || token.is_inline() {
+                    if token.token_type() == TokenType::NewLineChar
+                        && self.last_token_type == TokenType::NewLineChar
+                    {
+                        // an empty line is part of the verse
+                        if !self.inline_stack.is_empty() {
+                            self.parse_text(token)?;
+                        }
+                        return Ok(());
+                    } else if token.token_type() == TokenType::QuoteVerseBlock || token.is_inline() {
                         self.open_parse_after_as_text_type = Some(token_type);
                     } else {
                         self.parse_text(token)?;
-- 
2.43.0


From 9b418f07c35e9ce65e05706b073aa45ccde31d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:43 +0000
Subject: [PATCH 69/82] fix: report closing delimiters without an open block

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 045cd36..9c001bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1120,13 +1120,13 @@ impl Parser {
             // ensure inlines are added appropriately
             self.add_inlines_to_block_stack()?;
             match self.block_stack.pop() {
-                Some(mut open_leaf) => {
+                Some(mut open_leaf @ Block::LeafBlock(_)) => {
                     open_leaf.add_locations(token.locations().clone());
                     self.push_block_to_stack(open_leaf)?;
                     self.open_parse_after_as_text_type = None;
                     Ok(())
                 }
-                None => Err(ParserError::OpenParse(token.line)),
+                _ => Err(ParserError::OpenParse(token.line)),
             }
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
-- 
2.43.0


From e7b9dbaa31ba69c1ce6ede4ceca3751988a10968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:46:22 +0000
Subject: [PATCH 70/82] fix: don't reopen delimited blocks that have been
 closed

---
 src/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9c001bb..34fcdcf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1153,12 +1153,13 @@ impl Parser {
             self.block_title = None;
         }
 
-        // check for any prior parents in reverse
-        if let Some(parent_block_idx) = self
-            .block_stack
-            .iter()
-            .rposition(|parent_block| matches!(parent_block, Block::ParentBlock(_)))
-        {
+        // check for any prior parents in reverse, as long as they are still open
+        if let Some(parent_block_idx) = self.block_stack.iter().rposition(|parent_block| {
+            matches!(parent_block, Block::ParentBlock(parent)
+                if parent.location.first().is_some_and(|opening| {
+                    self.open_delimited_block_lines.contains(&opening.line)
+                }))
+        }) {
             let matched_block = self.block_stack.remove(parent_block_idx);
             let Block::ParentBlock(mut matched) = matched_block else {
                 return Err(ParserError::ParentBlock(delimiter_line));
-- 
2.43.0


From 0cccfe9b18aacb98752ea07b940555c1041f4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:15 +0000
Subject: [PATCH 71/82] fix: don't end the section at the first paragraph with
 a link, reference or image

---
 src/graph/inlines.rs |  2 +-
 src/parser.rs        | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 8bbef05..7ff621a 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -532,7 +532,7 @@ pub struct InlineRef {
     pub metadata: Option<ElementMetadata>,
     location: Vec<Location>,
     #[serde(skip)]
-    open: bool,
+    pub open: bool,
 }
 
 impl InlineRef {
diff --git a/src/parser.rs b/src/parser.rs
index 34fcdcf..13130c4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -931,7 +931,6 @@ impl Parser {
                 metadata,
                 token.locations(),
             )));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -970,8 +969,6 @@ impl Parser {
             inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
-            // note that we're now closed
-            self.close_parent_after_push = true;
             // and that the inline span is ended
             self.in_inline_span = false;
         } else {
@@ -1005,7 +1002,6 @@ impl Parser {
         self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -1098,7 +1094,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.inlines.push(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1280,7 +1276,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.add_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1315,7 +1311,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.pass_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
-- 
2.43.0


From aa3d42a61a9c219c7349e909bb35c299816e952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:14 +0000
Subject: [PATCH 72/82] fix: don't nest sections inside the example, quote or
 table ahead of them

---
 src/graph/blocks.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 37a067d..bcc2411 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -149,7 +149,8 @@ impl Block {
             }
             Block::List(_) => matches!(block, Block::ListItem(_)),
             Block::DList(_) => matches!(block, Block::DListItem(_)),
-            Block::ParentBlock(_) | Block::ListItem(_) | Block::DListItem(_) => true,
+            // sections only belong in other sections
+            Block::ParentBlock(_) | Block::ListItem(_) | Block::DListItem(_) => !block.is_section(),
             _ => false,
         }
     }
-- 
2.43.0


From d937dc0a437469749dde942103d2350d8f26408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:17 +0000
Subject: [PATCH 73/82] fix: keep the text ahead of a heading out of its title

---
 src/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 13130c4..a4434b9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -773,6 +773,15 @@ impl Parser {
     fn parse_section_headings(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let level = self.get_heading_level(&token)?;
 
+        // what came before is not part of the new section, other than its metadata
+        let metadata = self.metadata.take();
+        self.add_inlines_to_block_stack()?;
+        self.metadata = metadata;
+        while self.open_delimited_block_lines.is_empty()
+            && self.block_stack.last().is_some_and(|block| !block.is_section())
+        {
+            self.add_last_to_block_stack_or_graph(asg)?;
+        }
         // if the last section is at the same level, we need to push that up, otherwise the
         // accordion effect gets screwy with section levels
         if let Some(Block::Section(_)) = self.block_stack.last() {
-- 
2.43.0


From b68e438163c00ac5d12a941367d3bbf9ff4472c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:36 +0000
Subject: [PATCH 74/82] fix: keep the text below a heading out of its title

---
 src/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a4434b9..3965518 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -464,7 +464,17 @@ impl Parser {
         }
 
         // newline exits a title, TK line continuation
+        let in_heading = self.in_block_line
+            && self.document_header.is_none()
+            && !self.inline_stack.is_empty()
+            && self.block_stack.last().is_some_and(|block| block.is_section());
         self.in_block_line = false;
+        if in_heading {
+            self.add_inlines_to_block_stack()?;
+            // what follows is not part of the title
+            self.force_new_block = true;
+            return Ok(());
+        }
 
         if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
-- 
2.43.0


From f70f942dcfa4818c7725c4b93fa4333e1cac809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:02 +0000
Subject: [PATCH 75/82] fix: end delimited blocks at their closing delimiter

---
 src/parser.rs         | 14 ++++++++++++++
 src/scanner/tokens.rs | 15 +++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3965518..7d3e9ad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -476,6 +476,19 @@ impl Parser {
             return Ok(());
         }
 
+        // a delimited block takes nothing that follows its closing delimiter
+        if self.last_token_type.delimits_block()
+            && self.open_delimited_block_lines.is_empty()
+            && self.open_parse_after_as_text_type.is_none()
+            && self.inline_stack.is_empty()
+            && matches!(
+                self.block_stack.last(),
+                Some(Block::ParentBlock(_) | Block::LeafBlock(_))
+            )
+        {
+            self.add_last_to_block_stack_or_graph(asg)?;
+        }
+
         if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
             self.dangling_newline = None;
@@ -1139,6 +1152,7 @@ impl Parser {
                     open_leaf.add_locations(token.locations().clone());
                     self.push_block_to_stack(open_leaf)?;
                     self.open_parse_after_as_text_type = None;
+                    self.force_new_block = true;
                     Ok(())
                 }
                 _ => Err(ParserError::OpenParse(token.line)),
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 1057bc2..0c98f25 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -325,6 +325,21 @@ impl TokenType {
         }
     }
 
+    /// Delimiters of blocks with content, whether opening or closing
+    pub(crate) fn delimits_block(&self) -> bool {
+        matches!(
+            self,
+            TokenType::SidebarBlock
+                | TokenType::OpenBlock
+                | TokenType::ExampleBlock
+                | TokenType::QuoteVerseBlock
+                | TokenType::Table
+                | TokenType::PassthroughBlock
+                | TokenType::LiteralBlock
+                | TokenType::SourceBlock
+        )
+    }
+
     pub(crate) fn clears_newline_after(&self) -> bool {
         matches!(
             self,
-- 
2.43.0


From 4e93842bb82fb031273ca836d7a0e31a0bb4d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:17 +0000
Subject: [PATCH 76/82] fix: don't begin the paragraph below a delimited block
 with a newline

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7d3e9ad..09e536b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -517,7 +517,11 @@ impl Parser {
                     }
                 } // if Some(last_block)
             }
-        } else if self.in_block_continuation || self.last_token_type.clears_newline_after() {
+        } else if self.in_block_continuation
+            || self.last_token_type.clears_newline_after()
+            || (self.last_token_type.delimits_block()
+                && self.open_parse_after_as_text_type.is_none())
+        {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else {
-- 
2.43.0


From 70d4de77fe234c4f37af79bd843c854985519a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:12 +0000
Subject: [PATCH 77/82] fix: recognise thematic and page breaks only at the
 start of a line

---
 src/scanner/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c5a9cca..56f2718 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -72,7 +72,7 @@ impl<'a> Scanner<'a> {
             '\'' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::ThematicBreak, false, 0)
                 } else if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
@@ -90,7 +90,7 @@ impl<'a> Scanner<'a> {
             '<' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::PageBreak, false, 0)
                 } else if ['-', '='].contains(&self.peek()) {
-- 
2.43.0


From adb15ad638fc34f734611c3ac8a448ac803e0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:15 +0000
Subject: [PATCH 78/82] fix: recognise admonition labels only at the start of a
 line

---
 src/scanner/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 56f2718..38a0992 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -337,7 +337,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'N' => {
-                if self.peeks_ahead(5) == "OTE: " {
+                if self.starts_new_line() && self.peeks_ahead(5) == "OTE: " {
                     self.current += 5;
                     self.add_token(TokenType::NotePara, true, 0)
                 } else {
@@ -345,7 +345,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'T' => {
-                if self.peeks_ahead(4) == "IP: " {
+                if self.starts_new_line() && self.peeks_ahead(4) == "IP: " {
                     self.current += 4;
                     self.add_token(TokenType::TipPara, true, 0)
                 } else {
@@ -353,7 +353,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'I' => {
-                if self.peeks_ahead(10) == "MPORTANT: " {
+                if self.starts_new_line() && self.peeks_ahead(10) == "MPORTANT: " {
                     self.current += 10;
                     self.add_token(TokenType::ImportantPara, true, 0)
                 } else {
@@ -361,7 +361,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'C' => {
-                if self.peeks_ahead(8) == "AUTION: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "AUTION: " {
                     self.current += 8;
                     self.add_token(TokenType::CautionPara, true, 0)
                 } else {
@@ -369,7 +369,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'W' => {
-                if self.peeks_ahead(8) == "ARNING: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "ARNING: " {
                     self.current += 8;
                     self.add_token(TokenType::WarningPara, true, 0)
                 } else {
-- 
2.43.0


From 25e9a48eb503a27a7f2263dee7c5a68e129c30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:11:15 +0000
Subject: [PATCH 79/82] fix: recognise a delimiter on the last line without a
 line break behind it

---
 src/scanner/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 38a0992..b67e0a6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -689,11 +689,11 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
-        let mut expected_block = String::from(c).repeat(delimiter_len - 1);
-        expected_block.push('\n');
+        let expected_block = String::from(c).repeat(delimiter_len - 1);
+        let line_end = self.current + delimiter_len - 1;
 
-        self.current + delimiter_len <= self.source.len()
-            && self.peeks_ahead(delimiter_len) == expected_block
+        self.peeks_ahead(delimiter_len - 1) == expected_block
+            && (line_end == self.source.len() || self.source.as_bytes()[line_end] == b'\n')
     }
 
     /// Checks for document attribute lines, e.g., ":foo: bar" or ":foo:"
-- 
2.43.0


From c3f1de87399a5670508317b8983f991912667136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:14:08 +0000
Subject: [PATCH 80/82] fix: take only the five labels for admonitions in an
 attribute line

---
 src/scanner/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index b67e0a6..78f1546 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -219,12 +219,18 @@ impl<'a> Scanner<'a> {
                 if self.starts_new_line() && self.peek() == '[' {
                     self.add_block_anchor()
                 } else if self.starts_attribution_line() {
-                    match self.source.as_bytes()[self.start + 1] as char {
-                        'N' => self.add_token(TokenType::NotePara, true, 0),
-                        'T' => self.add_token(TokenType::TipPara, true, 0),
-                        'I' => self.add_token(TokenType::ImportantPara, true, 0),
-                        'C' => self.add_token(TokenType::CautionPara, true, 0),
-                        'W' => self.add_token(TokenType::WarningPara, true, 0),
+                    match &self.source[self.start + 1..self.current] {
+                        s if s.starts_with("NOTE") => self.add_token(TokenType::NotePara, true, 0),
+                        s if s.starts_with("TIP") => self.add_token(TokenType::TipPara, true, 0),
+                        s if s.starts_with("IMPORTANT") => {
+                            self.add_token(TokenType::ImportantPara, true, 0)
+                        }
+                        s if s.starts_with("CAUTION") => {
+                            self.add_token(TokenType::CautionPara, true, 0)
+                        }
+                        s if s.starts_with("WARNING") => {
+                            self.add_token(TokenType::WarningPara, true, 0)
+                        }
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
                 } else if self.peek() == '.' {
-- 
2.43.0


From 4172a8c6ebce5811e470d4107315671c2a48774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:20:10 +0000
Subject: [PATCH 81/82] fix: keep further positional attributes of source and
 quote blocks

---
 src/graph/metadata.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 255a748..9075bd5 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -217,20 +217,17 @@ impl ElementMetadata {
 
     fn process_attribute(&mut self, idx: usize, attribute: &mut String) {
         match self.declared_type {
-            Some(AttributeType::Source) => {
-                if idx == 1 {
-                    self.attributes
-                        .insert(String::from("language"), attribute.trim().into());
-                }
+            Some(AttributeType::Source) if idx == 1 => {
+                self.attributes
+                    .insert(String::from("language"), attribute.trim().into());
             }
-            Some(AttributeType::Quote) | Some(AttributeType::Verse) => {
-                if idx == 1 {
-                    self.attributes
-                        .insert(String::from("attribution"), String::from(attribute.trim()));
-                } else if idx == 2 {
-                    self.attributes
-                        .insert(String::from("citation"), String::from(attribute.trim()));
-                }
+            Some(AttributeType::Quote) | Some(AttributeType::Verse) if idx == 1 => {
+                self.attributes
+                    .insert(String::from("attribution"), String::from(attribute.trim()));
+            }
+            Some(AttributeType::Quote) | Some(AttributeType::Verse) if idx == 2 => {
+                self.attributes
+                    .insert(String::from("citation"), String::from(attribute.trim()));
             }
             Some(AttributeType::Lines) => {
                 // need to figure out how to
-- 
2.43.0


From 6aecdd64eda168f72d43f05965ca7fb4ab81c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:20:13 +0000
Subject: [PATCH 82/82] fix: a quoted attribute does not shift the position of
 the others

---
 src/graph/metadata.rs |  2 +-
 src/utils.rs          | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 9075bd5..f495c39 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -207,7 +207,7 @@ impl ElementMetadata {
                             }
                             _ => self.process_attribute(idx, attribute),
                         }
-                    } else if !attribute.is_empty() {
+                    } else if !attribute.trim().is_empty() {
                         self.process_attribute(idx, attribute);
                     }
                 }
diff --git a/src/utils.rs b/src/utils.rs
index 593c591..df755a4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -98,14 +98,19 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
 }
 
 pub fn extract_attributes(attribute_list: &str) -> Vec<String> {
-    let mut attributes: Vec<String> = vec![];
+    let mut quoted_attributes: Vec<String> = vec![];
     let mut non_quoted_key_values = attribute_list.to_owned();
     // TK "1,2,4" should be a single attribute, not "1,", 2, 4"
     for quoted_attr in RE_NAMED_QUOTED.captures_iter(attribute_list) {
         let (total, [_]) = quoted_attr.extract();
-        attributes.push(total.to_owned());
+        quoted_attributes.push(total.to_owned());
         non_quoted_key_values = non_quoted_key_values.replace(total, "");
     }
-    attributes.extend(non_quoted_key_values.split(',').map(|s| s.to_string()));
+    // quoted attributes go last, so that the others keep their position
+    let mut attributes: Vec<String> = non_quoted_key_values
+        .split(',')
+        .map(|s| s.to_string())
+        .collect();
+    attributes.append(&mut quoted_attributes);
     attributes
 }
-- 
2.43.0

