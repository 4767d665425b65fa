P="src/parser.rs"; U="src/utils.rs"; M="src/graph/metadata.rs"; N="src/graph/nodes.rs"; B="src/graph/blocks.rs"
T="src/scanner/tokens.rs"; I="src/graph/inlines.rs"; L="src/graph/lists.rs"; A="src/graph/asg.rs"
CASES=[
# --- breaking
("attribute guard gone","bug",[(P,"""        if attr_components.is_empty() {
            warn!("Empty attributes list at line: {}", token.line);
            return Ok(());
        }
""","")]),
("reconcile guard gone","bug",[(N,"""            if start.len() > 1 {
                // remove the middle
                start.drain(1..start.len() - 1);
            }""","""            start.drain(1..start.len() - 1);""")]),
("reconcile other","bug",[(N,"if start.len() > 1 {","if !start.is_empty() {")]),
("table guard","bug",[(B,"if table.blocks.len() >= 2 {","if !table.blocks.is_empty() {")]),
("attr slice","bug",[(M,"match attribute.get(..2) {","match Some(&attribute[..2]) {")]),
("pop unwrap","bug",[(P,"""                let Some(line) = self.open_delimited_block_lines.pop() else {
                    return Err(ParserError::DelimitedBlock);
                };""","""                let line = self.open_delimited_block_lines.pop().unwrap();""")]),
("list item guard","bug",[(P,"""        if self.block_stack.last().is_some()
            && self.block_stack.last().unwrap().is_unordered_list_item()
        {""","""        if self.block_stack.last().unwrap().is_unordered_list_item() {""")]),
("last block unwrap","bug",[(P,"""            let Some(last_block) = self.block_stack.last_mut() else {
                return Err(ParserError::BlockContinuation);
            };
            last_block.push_block(para_block)?;""","""            self.block_stack.last_mut().unwrap().push_block(para_block)?;""")]),
("anchor slice","bug",[(M,"""        if matches!(token.token_type(), TokenType::BlockAnchor) {
            let id = token.lexeme[2..token.lexeme.len() - 2]""","""        if !matches!(token.token_type(), TokenType::BlockAnchor) {
            let id = token.lexeme[2..token.lexeme.len() - 2]""")]),
("include prefix","bug",[(U,"token.text()[9..].to_string()","token.text()[12..].to_string()")]),
("macro loop >=","bug",[(P,"while self.inline_stack.len() > inline_macro_idx {","while self.inline_stack.len() >= inline_macro_idx {")]),
("pop_front no loop","bug",[(P,"""        while !self.inline_stack.is_empty() {
            let inline = self.inline_stack.pop_front().unwrap();
            dlist_item.push_term(inline);
        }""","""        let inline = self.inline_stack.pop_front().unwrap();
        dlist_item.push_term(inline);""")]),
("tag any","bug",[(T,"matches!(self.token_type(), TokenType::StartTag | TokenType::EndTag)","matches!(self.token_type(), TokenType::StartTag | TokenType::EndTag | TokenType::Comment)")]),
("quote title unwrap","bug",[(P,"        if self.block_title.is_some() {\n            block.title = ","        if self.in_block_line {\n            block.title = ")]),
("attr ref slice","bug",[(P,"&attribute_ref[1..attribute_ref.len() - 1]","&attribute_ref[3..attribute_ref.len() - 1]")]),
("target other kind","bug",[(U,"TokenType::BlockImageMacro => {\n            token","TokenType::Comment => {\n            token")]),
("drain open","bug",[(P,"VecDeque::from_iter(self.block_stack.drain(parent_block_idx..))","VecDeque::from_iter(self.block_stack.drain(parent_block_idx + 1..))")]),
("dangling at","bug",[(P,"self.inline_stack.insert(open_span_idx, child);","self.inline_stack.insert(open_span_idx + 1, child);")]),
("dangling extract","bug",[(P,"                } else if inline.is_literal() {\n","                } else if !inline.is_open() {\n")]),
("cell text","bug",[(P,"let cell_contents = token.text()[1..].to_string();","let cell_contents = token.text()[2..].to_string();")]),
("endcol sub","bug",[(P,"token.endcol = (token.startcol + value.len()).saturating_sub(1);","token.endcol = token.startcol + value.len() - 1;")]),
# --- preserving
("attribute match","same",[(P,"""        attr_components.remove(0); // throw away initial "" in the list
        if attr_components.is_empty() {
            warn!("Empty attributes list at line: {}", token.line);
            return Ok(());
        }
        let key = attr_components.first().unwrap();
        // values should be trimmed
        let mut value = attr_components.last().unwrap().trim();
""","""        attr_components.remove(0);
        let (Some(key), Some(last)) = (attr_components.first(), attr_components.last()) else {
            warn!("Empty attributes list at line: {}", token.line);
            return Ok(());
        };
        let mut value = last.trim();
""")]),
("attribute len","same",[(P,"if attr_components.is_empty() {","if attr_components.len() == 0 {")]),
("attribute idx","same",[(P,"let key = attr_components.first().unwrap();","let key = &attr_components[0];"),(P,"attr_components.last().unwrap().trim()","attr_components[attr_components.len() - 1].trim()")]),
("reconcile early","same",[(N,"""            if start.len() > 1 {
                // remove the middle
                start.drain(1..start.len() - 1);
            }""","""            if start.len() <= 1 {
                return start;
            }
            let last = start.len() - 1;
            start.drain(1..last);""")]),
("table match","same",[(B,"""            let first_cell_line = table.blocks[0].line()?;
            if first_cell_line == table.blocks[1].line()? {""","""            let (first, second) = (&table.blocks[0], &table.blocks[1]);
            let first_cell_line = first.line()?;
            if first_cell_line == second.line()? {""")]),
("table early","same",[(B,"if table.blocks.len() >= 2 {","if table.blocks.len() > 1 {")]),
("list item is_some_and","same",[(P,"""        if self.block_stack.last().is_some()
            && self.block_stack.last().unwrap().is_unordered_list_item()
        {""","""        if self.block_stack.last().is_some_and(|last| last.is_unordered_list_item()) {""")]),
("list item matches","same",[(P,"""        if self.block_stack.last().is_some()
            && self.block_stack.last().unwrap().is_unordered_list_item()
        {""","""        if !self.block_stack.is_empty()
            && self.block_stack[self.block_stack.len() - 1].is_unordered_list_item()
        {""")]),
("while let pop","same",[(P,"""        while !self.inline_stack.is_empty() {
            let inline = self.inline_stack.pop_front().unwrap();
            dlist_item.push_term(inline);
        }""","""        while let Some(inline) = self.inline_stack.pop_front() {
            dlist_item.push_term(inline);
        }""")]),
("drain for","same",[(P,"""        while !self.inline_stack.is_empty() {
            let inline = self.inline_stack.pop_front().unwrap();
            dlist_item.push_term(inline);
        }""","""        for inline in self.inline_stack.drain(..) {
            dlist_item.push_term(inline);
        }""")]),
("title take","same",[(P,"""        if self.block_title.is_some() {
            block.title = self.block_title.as_ref().unwrap().clone();
            self.block_title = None;
        }

        // check for any""","""        if let Some(title) = self.block_title.take() {
            block.title = title;
        }

        // check for any""")]),
("strip prefix","same",[(U,"token.text()[7..].to_string()",'token.text().strip_prefix("image::").unwrap_or_default().to_string()')]),
("lexeme helper","same",[(M,"let id = token.lexeme[2..token.lexeme.len() - 2].to_string(); // skip the \"[[\" and \"]]\"\n            new_block","let id = inside(&token.lexeme, 2).to_string();\n            new_block"),
  (M,"impl ElementMetadata {","fn inside(text: &str, n: usize) -> &str {\n    &text[n..text.len() - n]\n}\n\nimpl ElementMetadata {")]),
("tag match","same",[(T,"""        if matches!(self.token_type(), TokenType::StartTag | TokenType::EndTag) {
            return Some((self.lexeme[5..self.lexeme.len() - 2]).to_string());
        }
        None""","""        match self.token_type() {
            TokenType::StartTag | TokenType::EndTag => {
                let end = self.lexeme.len() - 2;
                Some(self.lexeme[5..end].to_string())
            }
            _ => None,
        }""")]),
("rename lexeme","same",[(f,"lexeme","source_text") for f in ("src/scanner/tokens.rs","src/scanner/mod.rs",P,M,I,B,L,U,"src/graph/macros.rs") if __import__("os").path.exists("/repo/"+f) and "lexeme" in open("/repo/"+f).read()]),
("last unwrap expect","same",[(P,"let last_item = self.block_stack.pop().unwrap();",'let last_item = self.block_stack.pop().expect("a list item");')]),
("macro drain","same",[(P,"""            while self.inline_stack.len() > inline_macro_idx {
                let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();
                inline_macro.push_inline(subsequent_inline);
            }""","""            for subsequent_inline in self.inline_stack.drain(inline_macro_idx..) {
                inline_macro.push_inline(subsequent_inline);
            }""")]),
("macro split_off","same",[(P,"""            let mut inline_macro = self.inline_stack.remove(inline_macro_idx).unwrap();
            while self.inline_stack.len() > inline_macro_idx {
                let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();
                inline_macro.push_inline(subsequent_inline);
            }""","""            let mut contents = self.inline_stack.split_off(inline_macro_idx);
            let mut inline_macro = contents.pop_front().unwrap();
            for subsequent_inline in contents {
                inline_macro.push_inline(subsequent_inline);
            }""")]),
("add inlines extracted","same",[(P,"""        while self.inline_stack.iter().any(|inline| inline.is_open()) {
            self.handle_dangling_spans();
        }
""","""        self.close_all_spans();
"""),(P,"    fn add_inlines_to_block_stack(","""    fn close_all_spans(&mut self) {
        while self.inline_stack.iter().any(|inline| inline.is_open()) {
            self.handle_dangling_spans();
        }
    }

    fn add_inlines_to_block_stack(""")]),
("list item guard first","same",[(P,"""        let last_item = self.block_stack.pop().unwrap();
        // if the last""","""        let Some(last_item) = self.block_stack.pop() else {
            return Ok(());
        };
        // if the last""")]),
("matched if let","same",[(P,"""            let matched_block = self.block_stack.remove(parent_block_idx);
            let Block::ParentBlock(mut matched) = matched_block else {
                return Err(ParserError::ParentBlock(delimiter_line));
            };""","""            let mut matched = match self.block_stack.remove(parent_block_idx) {
                Block::ParentBlock(matched) => matched,
                _ => return Err(ParserError::ParentBlock(delimiter_line)),
            };""")]),
("offset saturating","same",[(T,"self.line += lines - 1;","self.line = (self.line + lines).saturating_sub(1);")]),
("callouts todo","same",[(P,"TokenType::Email => todo!()","TokenType::Email => unreachable!(\"never scanned\")")]),
("endcol checked","same",[(P,"token.endcol = (token.startcol + value.len()).saturating_sub(1);","token.endcol = token.startcol + value.len().max(1) - 1;")]),
("iter blocks","same",[(P,"""                while !blocks_to_add.is_empty() {
                    delimited_block.push_block(blocks_to_add.pop_front().unwrap())?
                }""","""                for inner in blocks_to_add.drain(..) {
                    delimited_block.push_block(inner)?
                }""")]),
]
