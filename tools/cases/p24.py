P='src/parser.rs'
CASES=[
("no newline ahead of link","bug",[(P,"    fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {\n        self.add_dangling_newline();\n","    fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {\n")]),
("newline dropped ahead of text","bug",[(P,"""            } else {
                self.add_text_to_last_inline(newline_token);
                self.dangling_newline = None;
            }
        }
        self.add_text_to_last_inline(token);""","""            } else {
                self.dangling_newline = None;
            }
        }
        self.add_text_to_last_inline(token);""")]),
("newline after text","bug",[(P,"""            } else {
                self.add_text_to_last_inline(newline_token);
                self.dangling_newline = None;
            }
        }
        self.add_text_to_last_inline(token);""","""            } else {
                self.add_text_to_last_inline(token);
                self.add_text_to_last_inline(newline_token);
                self.dangling_newline = None;
                return Ok(());
            }
        }
        self.add_text_to_last_inline(token);""")]),
("span without newline","bug",[(P,"        // a newline ahead of the span separates it from what came before\n        self.add_dangling_newline();\n","        self.dangling_newline = None;\n")]),
("charref without newline","bug",[(P,"""            } else {
                self.add_text_to_last_inline(newline_token);
                self.dangling_newline = None;
            }
        }
        if let Some(last_inline) = self.inline_stack.back_mut() {
            match last_inline {
                Inline::InlineSpan(span) => {
                    if self.in_inline_span {
                        span.add_inline(inline_literal);
                    } else {
                        self.inline_stack.push_back(inline_literal)
                    }
                }
                Inline::InlineRef""","""            }
        }
        if let Some(last_inline) = self.inline_stack.back_mut() {
            match last_inline {
                Inline::InlineSpan(span) => {
                    if self.in_inline_span {
                        span.add_inline(inline_literal);
                    } else {
                        self.inline_stack.push_back(inline_literal)
                    }
                }
                Inline::InlineRef""")]),
("cleared but kept text","bug",[(P,"    fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {\n        self.add_dangling_newline();\n","    fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {\n        if self.in_inline_span {\n            self.add_dangling_newline();\n        }\n")]),
("helper drops when preserved","bug",[(P,"""        if let Some(newline_token) = self.dangling_newline.take() {
            if self.preserve_newline_text {
                self.inline_stack.push_back(Inline::InlineLiteral(
                    InlineLiteral::new_text_from_token(&newline_token),
                ));
            } else {""","""        if let Some(newline_token) = self.dangling_newline.take() {
            if !self.preserve_newline_text {""")]),
("helper only in paragraphs","bug",[(P,"""        if let Some(newline_token) = self.dangling_newline.take() {
            if self.preserve_newline_text {""","""        if self.in_block_line {
            self.dangling_newline = None;
        }
        if let Some(newline_token) = self.dangling_newline.take() {
            if self.preserve_newline_text {""")]),
("clear by take","same",[(P,"""            // don't add a newline ahead of text in these cases
            self.dangling_newline = None;""","""            // don't add a newline ahead of text in these cases
            let _ = self.dangling_newline.take();""")]),
("use helper in parse_text","same",[(P,"""    fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
        if let Some(newline_token) = self.dangling_newline.clone() {
            if self.preserve_newline_text {
                // add the newline as such
                self.inline_stack.push_back(Inline::InlineLiteral(
                    InlineLiteral::new_text_from_token(&newline_token),
                ));
                // clear the newline
                self.dangling_newline = None;
                // add the new text separately
                self.inline_stack.push_back(Inline::InlineLiteral(
                    InlineLiteral::new_text_from_token(&token),
                ));
                return Ok(());
            } else {
                self.add_text_to_last_inline(newline_token);
                self.dangling_newline = None;
            }
        }
        self.add_text_to_last_inline(token);""","""    fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
        if self.dangling_newline.is_some() && self.preserve_newline_text {
            self.add_dangling_newline();
            self.inline_stack.push_back(Inline::InlineLiteral(
                InlineLiteral::new_text_from_token(&token),
            ));
            return Ok(());
        }
        self.add_dangling_newline();
        self.add_text_to_last_inline(token);""")]),
("take","same",[(P,"""        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_charref_from_token(&token));
        if let Some(newline_token) = self.dangling_newline.clone() {""","""        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_charref_from_token(&token));
        if let Some(newline_token) = self.dangling_newline.take() {""")]),
("push helper","same",[(P,"""        self.add_dangling_newline();
        self.inline_stack
            .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
        Ok(())
    }
""","""        self.push_separate(Inline::InlineRef(InlineRef::new_link_from_token(token)));
        Ok(())
    }

    fn push_separate(&mut self, inline: Inline) {
        self.add_dangling_newline();
        self.inline_stack.push_back(inline);
    }
""")]),
("newline in dispatcher","same",[(P,"""    fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
        self.add_dangling_newline();
""","""    fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
"""),(P,"TokenType::Hyperlink => self.parse_hyperlink(token),","TokenType::Hyperlink => {\n                self.add_dangling_newline();\n                self.parse_hyperlink(token)\n            }")]),
("rename","same",[(P,"dangling_newline","newline_ahead")]),
]
