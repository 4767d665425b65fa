exec(open("tools/cases/p09.py").read().split("CASES")[0])
CASES=[
("debug print","bug",[(S,"    fn starts_new_line(&self) -> bool {","    fn starts_new_line(&self) -> bool {\n        if self.line > 10_000 {\n            println!(\"long document\");\n        }")]),
("dbg","bug",[(G,"    pub fn word_count(&self) -> usize {","    pub fn word_count(&self) -> usize {\n        if self.blocks.is_empty() {\n            print!(\"\");\n        }")]),
("env","bug",[(P,"    fn check_target(&self, token_line: usize, target: &str) -> Result<(), ParserError> {","    fn check_target(&self, token_line: usize, target: &str) -> Result<(), ParserError> {\n        if std::env::var_os(\"ASCIIDOCR_LAX\").is_some() {\n            return Ok(());\n        }")]),
("cache file","bug",[(H,"    let mut tera = Tera::default();","    let mut tera = Tera::default();\n    let _ = std::fs::write(\"/tmp/asciidocr.log\", &graph.name);")]),
("exit","bug",[(P,"        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {\n            return","        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {\n            if self.file_stack.len() > MAX_INCLUDE_DEPTH {\n                std::process::exit(3);\n            }\n            return")]),
("thread","bug",[(H,"    let mut tera = Tera::default();","    let _ = std::thread::spawn(|| {});\n    let mut tera = Tera::default();")]),
("graph reads","bug",[(I,"                        warn!(\"Unable to find xref: {}\", iref.target)","                        if !std::path::Path::new(&iref.target).exists() {\n                            warn!(\"Unable to find xref: {}\", iref.target)\n                        }")]),
("parser writes","bug",[(P,"        self.file_stack.push(target.clone());","        self.file_stack.push(target.clone());\n        let _ = fs::copy(&resolved_target, \"/tmp/last-include\");")]),
("stderr write","bug",[(W,"impl DocxWriter {","fn announce() {\n    use std::io::Write;\n    let _ = std::io::stdout().write_all(b\"docx\");\n}\n\nimpl DocxWriter {\n    pub fn start(&self) {\n        announce()\n    }\n")]),
("cwd","bug",[(P,"    fn resolve_target(&self, token_line: usize, target: &str) -> Result<PathBuf, ParserError> {","    fn resolve_target(&self, token_line: usize, target: &str) -> Result<PathBuf, ParserError> {\n        let _ = std::env::set_current_dir(&self.origin_directory);")]),
("log more","same",[(I,"                        warn!(\"Unable to find xref: {}\", iref.target)","                        log::info!(\"xref\");\n                        warn!(\"Unable to find xref: {}\", iref.target)")]),
("read bytes","same",[(P,"fs::read_to_string(&resolved_target)\n            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?","fs::read(&resolved_target)\n            .ok()\n            .and_then(|bytes| String::from_utf8(bytes).ok())\n            .ok_or_else(|| ParserError::TargetResolution(token.line, target.clone()))?")]),
("exists","same",[(P,"            match self.resolve_target(token_line, target) {\n                Ok(_) => Ok(()),","            match self.resolve_target(token_line, target) {\n                Ok(path) if path.exists() => Ok(()),\n                Ok(_) => Err(ParserError::TargetResolution(token_line, target.into())),")]),
("stdout lock","same",[(M,"        None => println!(\"{}\", result),","        None => {\n            use std::io::Write;\n            writeln!(std::io::stdout().lock(), \"{}\", result)?\n        }")]),
]
