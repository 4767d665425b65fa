S="src/scanner/mod.rs"; T="src/scanner/tokens.rs"
CASES=[
("heading anywhere","bug",[(S,"else if self.starts_new_line() {\n                                self.add_heading()","else {\n                                self.add_heading()"),(S,"""                                self.add_heading()
                            } else {
                                self.add_text_until_next_markup()
                            }""","""                                self.add_heading()
                            }""")]),
("heading level","bug",[(S,"match self.source.as_bytes()[self.start..self.current - 1].len() {","match self.source.as_bytes()[self.start..self.current].len() {")]),
("heading swapped","bug",[(S,"            3 => self.add_token(TokenType::Heading3, false, 0),\n            4 => self.add_token(TokenType::Heading4, false, 0),","            4 => self.add_token(TokenType::Heading3, false, 0),\n            3 => self.add_token(TokenType::Heading4, false, 0),")]),
("heading no space","bug",[(S,"        if self.peek() != ' ' {\n            return self.add_text_until_next_markup();\n        }\n        self.current += 1;","        self.current += 1;")]),
("list anywhere","bug",[(S,"if self.starts_new_line() && self.peek() == ' ' {\n                                self.add_list_item(TokenType::UnorderedListItem)","if self.peek() == ' ' {\n                                self.add_list_item(TokenType::UnorderedListItem)")]),
("delimiter anywhere","bug",[(S,"} else if self.starts_new_line() && self.starts_repeated_char_line(c, 4) {","} else if self.starts_repeated_char_line(c, 4) {")]),
("delimiter longer","bug",[(S,"""        self.peeks_ahead(delimiter_len - 1) == expected_block
            && (line_end == self.source.len() || self.source.as_bytes()[line_end] == b'\\n')""","""        self.peeks_ahead(delimiter_len - 1) == expected_block
            && (line_end == self.source.len() || self.source.as_bytes()[line_end] != b' ')""")]),
("delimiter not at end","bug",[(S,"""            && (line_end == self.source.len() || self.source.as_bytes()[line_end] == b'\\n')""","""            && line_end < self.source.len()
            && self.source.as_bytes()[line_end] == b'\\n'""")]),
("delimiter swapped","bug",[(T,"'-' => Ok(Self::SourceBlock)","'-' => Ok(Self::LiteralBlock)"),(T,"'.' => Ok(Self::LiteralBlock)","'.' => Ok(Self::SourceBlock)")]),
("new line only later","bug",[(S,"self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\\n'","self.start > 0 && self.source.as_bytes()[self.start - 1] == b'\\n'")]),
("new line or space","bug",[(S,"self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\\n'","self.start == 0 || self.source.as_bytes()[self.start - 1].is_ascii_whitespace()")]),
("include anywhere","bug",[(S,"if self.starts_new_line() && self.peeks_ahead(8) == \"nclude::\"","if self.peeks_ahead(8) == \"nclude::\"")]),
("block image anywhere","bug",[(S,"} else if self.starts_new_line() && self.peeks_ahead(6) == \"mage::\"","} else if self.peeks_ahead(6) == \"mage::\"")]),
("attr anywhere","bug",[(S,"if self.starts_new_line() && self.starts_attr()","if self.starts_attr()")]),
("comment anywhere","bug",[(S,"} else if self.starts_new_line() && self.peek() == '/' {","} else if self.peek() == '/' {")]),
("table prefix","bug",[(S,"if ['\\n', '\\0'].contains(&self.peek()) {\n                        self.add_token(TokenType::Table","if ['\\n', '\\0', '='].contains(&self.peek()) {\n                        self.add_token(TokenType::Table")]),
("cell anywhere","bug",[(S,"} else if self.starts_new_line() || self.peek_back() == ' ' {\n                    // it's","} else if self.starts_new_line() || self.peek_back() != '\\\\' {\n                    // it's")]),
("tip is note","bug",[(S,"self.current += 4;\n                    self.add_token(TokenType::TipPara","self.current += 4;\n                    self.add_token(TokenType::NotePara")]),
("strong emphasis swapped","bug",[(S,"                                    TokenType::Strong,\n                                    TokenType::UnconstrainedStrong,","                                    TokenType::Emphasis,\n                                    TokenType::UnconstrainedEmphasis,")]),
("super sub swapped","bug",[(S,"'^' => self.add_token(TokenType::Superscript","'^' => self.add_token(TokenType::Subscript"),(S,"'~' => self.add_token(TokenType::Subscript","'~' => self.add_token(TokenType::Superscript")]),
("attribution anywhere","bug",[(S,"if self.starts_new_line() && self.source.as_bytes()[self.current - 1] as char == ']' {","if self.source.as_bytes()[self.current - 1] as char == ']' {")]),
("block label anywhere","bug",[(S,"""                            } else if self.starts_new_line() {
                                if self.peek() == ' ' {""","""                            } else if self.starts_new_line() || self.peek_back() == ' ' {
                                if self.peek() == ' ' {""")]),
("continuation anywhere","bug",[(S,"if self.starts_new_line() && self.peek() == '\\n' {","if self.peek() == '\\n' {")]),
("callout item anywhere","bug",[(S,"} else if self.starts_new_line() && self.starts_code_callout_list_item() {","} else if self.starts_code_callout_list_item() {")]),
("new line match","same",[(S,"self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\\n'","match self.start {\n            0 => true,\n            n => self.source.as_bytes()[n - 1] == b'\\n',\n        }")]),
("new line prefix","same",[(S,"self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\\n'","self.start == 0 || self.source[..self.start].ends_with('\\n')")]),
("heading if","same",[(S,"""        match self.source.as_bytes()[self.start..self.current - 1].len() {
            1 =>""","""        let level = self.current - 1 - self.start;
        match level {
            1 =>""")]),
("heading ifs","same",[(S,"""        match self.source.as_bytes()[self.start..self.current - 1].len() {
            1 => self.add_token(TokenType::Heading1, false, 0),
            2 => self.add_token(TokenType::Heading2, false, 0),""","""        let level = self.current - 1 - self.start;
        if level == 1 {
            return self.add_token(TokenType::Heading1, false, 0);
        }
        match level {
            2 => self.add_token(TokenType::Heading2, false, 0),""")]),
("delimiter starts_with","same",[(S,"""        let expected_block = String::from(c).repeat(delimiter_len - 1);
        let line_end = self.current + delimiter_len - 1;

        self.peeks_ahead(delimiter_len - 1) == expected_block
            && (line_end == self.source.len() || self.source.as_bytes()[line_end] == b'\\n')""","""        let line_end = self.current + delimiter_len - 1;
        if line_end > self.source.len() {
            return false;
        }
        for i in self.current..line_end {
            if self.source.as_bytes()[i] as char != c {
                return false;
            }
        }
        line_end == self.source.len() || self.source.as_bytes()[line_end] == b'\\n'""")]),
("admonition helper","same",[(S,"""                if self.starts_new_line() && self.peeks_ahead(5) == "OTE: " {
                    self.current += 5;
                    self.add_token(TokenType::NotePara, true, 0)
                } else {
                    self.add_text_until_next_markup()
                }""","""self.add_admonition("OTE: ", TokenType::NotePara)"""),(S,"""                if self.starts_new_line() && self.peeks_ahead(4) == "IP: " {
                    self.current += 4;
                    self.add_token(TokenType::TipPara, true, 0)
                } else {
                    self.add_text_until_next_markup()
                }""","""self.add_admonition("IP: ", TokenType::TipPara)"""),(S,"    fn starts_new_line(&self)","""    fn add_admonition(&mut self, label: &str, kind: TokenType) -> Result<Token, ScannerError> {
        if self.starts_new_line() && self.peeks_ahead(label.len()) == label {
            self.current += label.len();
            self.add_token(kind, true, 0)
        } else {
            self.add_text_until_next_markup()
        }
    }

    fn starts_new_line(&self)""")]),
("guards","same",[(S,"""            '^' => self.add_token(TokenType::Superscript, false, 0),
            '~' => self.add_token(TokenType::Subscript, false, 0),""","""            '^' | '~' => {
                let kind = if c == '^' {
                    TokenType::Superscript
                } else {
                    TokenType::Subscript
                };
                self.add_token(kind, false, 0)
            }""")]),
("flipped list","same",[(S,"if self.starts_new_line() && self.peek() == ' ' {\n                                self.add_list_item(TokenType::UnorderedListItem)","if self.peek() == ' ' && self.starts_new_line() {\n                                self.add_list_item(TokenType::UnorderedListItem)")]),
("comment slice","same",[(S,"} else if self.starts_new_line() && self.peek() == '/' {","} else if self.starts_new_line() && self.peeks_ahead(1) == \"/\" {")]),
("table whole","same",[(S,"if self.starts_new_line() && self.peeks_ahead(3) == \"===\"","if self.starts_new_line() && self.source[self.current..].starts_with(\"===\")")]),
]
CASES += [
("list after blank","bug",[(S,"if self.starts_new_line() && self.peek() == ' ' {\n                                self.add_list_item(TokenType::UnorderedListItem)","if self.starts_new_line()\n                                && self.peek() == ' '\n                                && (self.start < 2 || self.source.as_bytes()[self.start - 2] == b'\\n')\n                            {\n                                self.add_list_item(TokenType::UnorderedListItem)")]),
("heading later only","bug",[(S,"else if self.starts_new_line() {\n                                self.add_heading()","else if self.starts_new_line() && self.line < 1000 {\n                                self.add_heading()")]),
("attr needs value","bug",[(S,"        let check = self.peek() == ':';\n        self.current = current_placeholder;\n        check","        let check = self.peeks_ahead(2) == \": \";\n        self.current = current_placeholder;\n        check")]),
("comment needs space","bug",[(S,"} else if self.starts_new_line() && self.peek() == '/' {","} else if self.starts_new_line() && self.peeks_ahead(2) == \"/ \" {")]),
("quote needs more","bug",[(S,"} else if self.starts_new_line() && self.starts_repeated_char_line(c, 4) {","} else if self.starts_new_line() && (c != '_' || self.line > 2) && self.starts_repeated_char_line(c, 4) {")]),
("callout one digit","bug",[(S,"} else if self.starts_new_line() && self.starts_code_callout_list_item() {","} else if self.starts_new_line() && self.peek() != '1' && self.starts_code_callout_list_item() {")]),
("ellipsis first","bug",[(S,"} else if self.starts_new_line() && self.starts_repeated_char_line(c, 4) {","} else if self.starts_new_line() && self.peeks_ahead(2) != \"..\" && self.starts_repeated_char_line(c, 4) {")]),
("text over lines","bug",[(S,"    fn add_text_until_next_markup(&mut self) -> Result<Token, ScannerError> {","    fn add_text_until_next_markup(&mut self) -> Result<Token, ScannerError> {\n        if self.peek() == '\\n' && self.line > 7 {\n            self.current += 1;\n        }")]),
("flag inverted","same",[(S,"expecting_tag_end: false","no_tag_open: true"),(S,"expecting_tag_end: false","no_tag_open: true"),(S,"expecting_tag_end: bool","no_tag_open: bool"),(S,"self.expecting_tag_end = true","self.no_tag_open = false"),(S,"self.expecting_tag_end = false","self.no_tag_open = true"),(S,"self.expecting_tag_end &&","!self.no_tag_open &&")]),
("heading for","same",[(S,"        while self.peek() == '=' {\n            self.current += 1\n        }\n        // not a heading","        loop {\n            if self.peek() != '=' {\n                break;\n            }\n            self.current += 1;\n        }\n        // not a heading")]),
("attr split","same",[(S,"        let check = self.peek() == ':';\n        self.current = current_placeholder;\n        check","        let found = self.peek();\n        self.current = current_placeholder;\n        found == ':'")]),
]
