S="src/scanner/mod.rs"
CASES=[
("attr no end test","bug",[(S,"        while ![' ', '\\n', ':'].contains(&self.peek()) && !self.is_at_end() {","        while ![' ', '\\n', ':'].contains(&self.peek()) {")]),
("line end off by one","bug",[(S,"(line_end == self.source.len() || self.source","(line_end > self.source.len() || self.source")]),
("peek back unguarded","bug",[(S,"        if self.start == 0 || !self.source.is_char_boundary(self.start - 1) {","        if !self.source.is_char_boundary(self.start - 1) {")]),
("no boundary ahead","bug",[(S,"            || !self.source.is_char_boundary(self.current)\n            || !self.source.is_char_boundary(self.current + count)\n","")]),
("tag to bracket","bug",[(S,"        while ![']', '\\n', '\\0'].contains(&self.peek()) {","        while ![']', '\\n'].contains(&self.peek()) {")]),
("get range","same",[(S,"        if self.is_at_end()\n            || self.current + count > self.source.len()\n            || !self.source.is_char_boundary(self.current)\n            || !self.source.is_char_boundary(self.current + count)\n        {\n            return \"\\0\";\n        }\n        &self.source[self.current..self.current + count]","        if self.is_at_end() {\n            return \"\\0\";\n        }\n        self.source\n            .get(self.current..self.current + count)\n            .unwrap_or(\"\\0\")")]),
("attr loop","same",[(S,"        while ![' ', '\\n', ':'].contains(&self.peek()) && !self.is_at_end() {\n            self.current += 1\n        }\n        let check = self.peek() == ':';","        loop {\n            if self.is_at_end() || matches!(self.peek(), ' ' | '\\n' | ':') {\n                break;\n            }\n            self.current += 1\n        }\n        let check = self.peek() == ':';")]),
("bytes get","same",[(S,"        self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\\n'","        match self.start.checked_sub(1) {\n            None => true,\n            Some(before) => self.source.as_bytes()[before] == b'\\n',\n        }")]),
("rename helper","same",[(S,"starts_new_line","at_line_start"),(S,"peeks_ahead","upcoming")]),
]
