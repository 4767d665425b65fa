S="src/scanner/mod.rs"
CASES=[
("end col","bug",[(S,"                line: self.line,\n                startcol: token_start,\n                endcol: token_start + text.len() - 1, // to","                line: self.line,\n                startcol: token_start,\n                endcol: token_start + text.len(), // to")]),
("lexeme trimmed","bug",[(S,"            token = Token {\n                token_type,\n                lexeme: text.to_string(),\n                literal,\n                line: self.line,","            token = Token {\n                token_type,\n                lexeme: text.trim_end().to_string(),\n                literal,\n                line: self.line,")]),
("line after","bug",[(S,"                line: token_line,","                line: self.line,")]),
("col stays","bug",[(S,"            self.startcol = text.len() - text.rfind('\\n').unwrap_or(0);","            self.startcol = 1;")]),
("space skipped","bug",[(S,"            self.current += 1;\n        }\n        self.add_token(TokenType::Text, true, 0)\n    }\n\n    fn add_tag","            self.current += 1;\n        }\n        let token = self.add_token(TokenType::Text, true, 0);\n        if self.peek() == '~' {\n            self.current += 1;\n        }\n        token\n    }\n\n    fn add_tag")]),
("end let","same",[(S,"        let token_start = self.startcol;\n","        let token_start = self.startcol;\n        let token_end = token_start + text.len() - 1;\n"),(S,"                endcol: token_start + text.len() - 1, // to account for the start char\n                file_stack: self.file_stack.clone(),\n            }\n        } else","                endcol: token_end,\n                file_stack: self.file_stack.clone(),\n            }\n        } else")]),
("one token","same",[(S,"            self.startcol = token_start + text.len();\n            token = Token {","            self.startcol += text.len();\n            token = Token {")]),
("lexeme lower","bug",[(S,"            token = Token {\n                token_type,\n                lexeme: text.to_string(),\n                literal,\n                line: self.line,","            token = Token {\n                token_type,\n                lexeme: text.to_lowercase(),\n                literal,\n                line: self.line,")]),
("lexeme saved","bug",[(S,"                lexeme: text.to_string(),\n                literal,\n                line: self.line,","                lexeme: if include_literal { String::new() } else { text.to_string() },\n                literal,\n                line: self.line,")]),
("literal trimmed","bug",[(S,"            literal = Some(text.to_string())","            literal = Some(text.trim_start().to_string())")]),
("literal cut","bug",[(S,"            literal = Some(text.to_string())","            literal = Some(self.source[self.start + 1..self.current].to_string())")]),
("literal then","same",[(S,"        let mut literal = None;\n        if include_literal {\n            literal = Some(text.to_string())\n        }","        let literal = include_literal.then(|| text.to_string());")]),
]
