P='src/parser.rs'
POP="        self.file_stack.pop();\n        self.level_offset = level_offset;\n        Ok(())"
GUARD="""        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
            return Err(ParserError::IncludeDepth(token.line, target));
        }
"""
LOOP="""            for file in self.file_stack.iter() {
                if let Some(parent) = PathBuf::from_str(file).unwrap().parent() {
                    resolved_target.push(parent)
                }
            }
"""
CASES=[
("no pop","bug",[(P,POP,"        self.level_offset = level_offset;\n        Ok(())")]),
("pop only asciidoc","bug",[(P,POP,"        if asciidoc_include {\n            self.file_stack.pop();\n        }\n        self.level_offset = level_offset;\n        Ok(())")]),
("early return on empty","bug",[(P,"        let current_block_stack_len = self.block_stack.len();\n","        if file_contents.is_empty() {\n            return Ok(());\n        }\n        let current_block_stack_len = self.block_stack.len();\n")]),
("pop before parse","bug",[(P,"        let current_block_stack_len = self.block_stack.len();\n\n        // Are we","        let current_block_stack_len = self.block_stack.len();\n        let stack = self.file_stack.clone();\n        self.file_stack.pop();\n\n        // Are we"),(P,"new_with_stack(&file_contents, self.file_stack.clone())","new_with_stack(&file_contents, stack)"),(P,POP,"        self.level_offset = level_offset;\n        Ok(())")]),
("offset kept","bug",[(P,"        self.level_offset = level_offset;\n        Ok(())","        Ok(())")]),
("offset zeroed","bug",[(P,"        self.level_offset = level_offset;\n        Ok(())","        self.level_offset = 0;\n        Ok(())"),(P,"        let level_offset = self.level_offset;\n","")]),
("offset saved late","bug",[(P,"        let level_offset = self.level_offset;\n",""),(P,"        let current_block_stack_len = self.block_stack.len();\n\n        // Are we","        let current_block_stack_len = self.block_stack.len();\n        let level_offset = self.level_offset;\n\n        // Are we")]),
("no guard","bug",[(P,GUARD,"")]),
("guard only warns","bug",[(P,GUARD,'        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {\n            eprintln!("deep");\n        }\n')]),
("guard for asciidoc only","bug",[(P,GUARD,'        if target.ends_with(".adoc") && self.file_stack.len() >= MAX_INCLUDE_DEPTH {\n            return Err(ParserError::IncludeDepth(token.line, target));\n        }\n')]),
("huge bound","bug",[(P,"MAX_INCLUDE_DEPTH: usize = 64","MAX_INCLUDE_DEPTH: usize = 1_000_000")]),
("only last file","bug",[(P,"for file in self.file_stack.iter() {\n                if let Some(parent)","if let Some(file) = self.file_stack.last() {\n                if let Some(parent)")]),
("only first file","bug",[(P,"for file in self.file_stack.iter() {\n                if let Some(parent)","for file in self.file_stack.iter().take(1) {\n                if let Some(parent)")]),
("origin only","bug",[(P,LOOP,"")]),
("cwd","bug",[(P,"let mut resolved_target = self.origin_directory.clone();","let mut resolved_target = PathBuf::new();"),(P,"match self.origin_directory.join(target).canonicalize()","match PathBuf::from(target).canonicalize()")]),
("push before resolve","bug",[(P,"        self.file_stack.push(target.clone());\n\n        let current",  "\n        let current"),(P,"        let resolved_target = self.resolve_target(token.line, &target)?;","        self.file_stack.push(target.clone());\n        let resolved_target = self.resolve_target(token.line, &target)?;")]),
("truncate","same",[(P,"        self.file_stack.push(target.clone());\n","        let nested = self.file_stack.len();\n        self.file_stack.push(target.clone());\n"),(P,POP,"        self.file_stack.truncate(nested);\n        self.level_offset = level_offset;\n        Ok(())")]),
("guard contains","same",[(P,GUARD,'        if self.file_stack.iter().filter(|f| **f == target).count() > 8 {\n            return Err(ParserError::IncludeDepth(token.line, target));\n        }\n')]),
("guard helper","same",[(P,GUARD,"        self.check_nesting(token.line, &target)?;\n"),(P,"    fn resolve_target(","    fn check_nesting(&self, line: usize, target: &str) -> Result<(), ParserError> {\n        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {\n            return Err(ParserError::IncludeDepth(line, target.to_string()));\n        }\n        Ok(())\n    }\n\n    fn resolve_target(")]),
("guard bool helper","same",[(P,"if self.file_stack.len() >= MAX_INCLUDE_DEPTH {","if self.too_deep() {"),(P,"    fn resolve_target(","    fn too_deep(&self) -> bool {\n        self.file_stack.len() >= MAX_INCLUDE_DEPTH\n    }\n\n    fn resolve_target(")]),
("split in two","same",[(P,"        self.file_stack.pop();\n        self.level_offset = level_offset;\n        Ok(())","        self.leave_file(level_offset);\n        Ok(())"),(P,"        self.file_stack.push(target.clone());\n\n","        self.enter_file(&target);\n\n"),(P,"    fn resolve_target(","    fn enter_file(&mut self, target: &str) {\n        self.file_stack.push(target.to_string());\n    }\n\n    fn leave_file(&mut self, level_offset: i8) {\n        self.file_stack.pop();\n        self.level_offset = level_offset;\n    }\n\n    fn resolve_target(")]),
("read helper","same",[(P,"""        let file_contents = fs::read_to_string(&resolved_target)
            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;""","        let file_contents = read_target(&resolved_target, token.line, &target)?;"),(P,"impl Default for Parser {","fn read_target(path: &std::path::Path, line: usize, target: &str) -> Result<String, ParserError> {\n    fs::read_to_string(path).map_err(|_| ParserError::TargetResolution(line, target.to_string()))\n}\n\nimpl Default for Parser {")]),
("body in other fn","same",[(P,"        let (target, meta) = target_and_attrs_from_token(&token);\n        // an offset given here ends with the included file\n        let level_offset = self.level_offset;","        let (target, meta) = target_and_attrs_from_token(&token);"),(P,"        self.file_stack.pop();\n        self.level_offset = level_offset;\n        Ok(())","        self.file_stack.pop();\n        Ok(())"),(P,"    fn parse_include(","    fn parse_include(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {\n        // an offset given here ends with the included file\n        let level_offset = self.level_offset;\n        self.include_file(token, asg)?;\n        self.level_offset = level_offset;\n        Ok(())\n    }\n\n    fn include_file(")]),
("fold","same",[(P,"            let mut resolved_target = self.origin_directory.clone();\n","            let resolved_target = self.file_stack.iter().filter_map(|f| PathBuf::from(f).parent().map(|p| p.to_path_buf())).fold(self.origin_directory.clone(), |a, b| a.join(b));\n"),(P,LOOP,"")]),
("absolute paths","same",[(P,"        self.file_stack.push(target.clone());\n\n","        self.path_stack.push(resolved_target.clone());\n        self.file_stack.push(target.clone());\n\n"),(P,"        self.file_stack.pop();\n        self.level","        self.file_stack.pop();\n        self.path_stack.pop();\n        self.level"),
   (P,LOOP,"            if let Some(parent) = self.path_stack.last().and_then(|p| p.parent()) {\n                resolved_target.push(parent)\n            }\n"),(P,"    file_stack: Vec<String>,","    file_stack: Vec<String>,\n    path_stack: Vec<PathBuf>,"),(P,"file_stack: vec![],","file_stack: vec![],\n            path_stack: vec![],")]),
]
