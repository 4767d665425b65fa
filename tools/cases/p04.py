P='src/parser.rs'; M='src/graph/metadata.rs'
T="src/graph/metadata.rs"
CASES=[
("admonition forgets","bug",[(P,"""        let mut block = Block::ParentBlock(ParentBlock::new_from_token(token)?);
        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }
        self.block_stack.push(block);
        self.close_parent""","""        let block = Block::ParentBlock(ParentBlock::new_from_token(token)?);
        self.block_stack.push(block);
        self.close_parent""")]),
("not taken","bug",[(P,"""            let mut block = Block::LeafBlock(LeafBlock::new_from_token(token)?);
            if let Some(metadata) = self.metadata.take() {""","""            let mut block = Block::LeafBlock(LeafBlock::new_from_token(token)?);
            if let Some(metadata) = self.metadata.clone() {""")]),
("breaks forget","bug",[(P,"""        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }
        if let Some(last_block) = self.block_stack.last_mut() {
            if last_block.takes_block_of_type(&block) {""","""        let _ = &mut block;
        if let Some(last_block) = self.block_stack.last_mut() {
            if last_block.takes_block_of_type(&block) {""")]),
("push after continuation","bug",[(P,"""        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }
        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
            let Some(last_block) = self.block_stack.last_mut() else {
                return Err(ParserError::BlockContinuation);
            };
            last_block.push_block(block)?;
            self.in_block_continuation = false;
        } else {
            self.block_stack.push(block)
        }""","""        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
            let Some(last_block) = self.block_stack.last_mut() else {
                return Err(ParserError::BlockContinuation);
            };
            last_block.push_block(block)?;
            self.in_block_continuation = false;
        } else {
            if let Some(metadata) = self.metadata.take() {
                block.add_metadata(metadata)?;
            }
            self.block_stack.push(block)
        }""")]),
("dropped at newline","bug",[(P,"                // and then force a new block hereafter\n                self.force_new_block = true;","                // and then force a new block hereafter\n                self.force_new_block = true;\n                self.metadata = None;")]),
("overwritten","bug",[(P,"            Some(ref mut metadata) => metadata.add_metadata_from_token(token),\n            None => {","            Some(_) if false => {}\n            _ => {")]),
("image drops","bug",[(P,"            image_block = image_block.add_metadata(metadata);\n            self.metadata = None;","            let _ = metadata;\n            self.metadata = None;")]),
("nested span forgets","bug",[(P,"""        let opens = self.inline_metadata.is_some();
        if let Some(metadata) = self.inline_metadata.take() {
            inline.add_metadata(metadata);
        }
""","        let opens = self.inline_metadata.is_some();\n"),(P,"        // check for any other dangling spans (otherwise they disappear!)\n        self.handle_dangling_spans();\n","        self.handle_dangling_spans();\n        if let Some(metadata) = self.inline_metadata.take() {\n            inline.add_metadata(metadata);\n        }\n")]),
("mem take","same",[(P,"""        let mut block = Block::ParentBlock(ParentBlock::new_from_token(token)?);
        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }""","""        let mut block = Block::ParentBlock(ParentBlock::new_from_token(token)?);
        let pending = std::mem::take(&mut self.metadata);
        if let Some(metadata) = pending {
            block.add_metadata(metadata)?;
        }""")]),
("helper","same",[(P,"""        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }
        self.block_stack.push(block);
        self.close_parent""","""        self.apply_metadata(&mut block)?;
        self.block_stack.push(block);
        self.close_parent"""),(P,"    fn parse_block_continuation(","    fn apply_metadata(&mut self, block: &mut Block) -> Result<(), ParserError> {\n        if let Some(metadata) = self.metadata.take() {\n            block.add_metadata(metadata)?;\n        }\n        Ok(())\n    }\n\n    fn parse_block_continuation(")]),
("match","same",[(P,"""        if let Some(metadata) = self.metadata.take() {
            block.add_metadata(metadata)?;
        }
        if self.in_block_continuation""","""        match self.metadata.take() {
            Some(metadata) => block.add_metadata(metadata)?,
            None => {}
        }
        if self.in_block_continuation""")]),
("use stack push","same",[(P,"""            if let Some(metadata) = self.metadata.take() {
                block.add_metadata(metadata)?;
            }
            // a block continuation only takes the block once it is closed
            self.block_stack.push(block);""","""            if self.metadata.is_some() {
                let metadata = self.metadata.take().unwrap();
                block.add_metadata(metadata)?;
            }
            // a block continuation only takes the block once it is closed
            self.block_stack.insert(self.block_stack.len(), block);""")]),
("roles replaced","bug",[(T,"                        for role in values {\n                            self.roles.push(role.to_string());\n                        }","                        self.roles = values.iter().map(|role| role.to_string()).collect();")]),
("first role only","bug",[(T,"                        for role in values {\n                            self.roles.push(role.to_string());\n                        }","                        if self.roles.is_empty() {\n                            self.roles.extend(values.first().map(|role| role.to_string()));\n                        }")]),
("attributes cleared","bug",[(T,"            if !self.attributes.contains_key(\"id\") {\n                self.attributes.insert(\"id\".to_string(), id);\n            }","            self.attributes.clear();\n            self.attributes.insert(\"id\".to_string(), id);")]),
("three attributes","bug",[(T,"attributes.iter_mut().enumerate()","attributes.iter_mut().enumerate().take(3)")]),
("citation lost","bug",[(T,"            Some(AttributeType::Quote) | Some(AttributeType::Verse) if idx == 2 => {\n                self.attributes\n                    .insert(String::from(\"citation\"), String::from(attribute.trim()));\n            }","            Some(AttributeType::Quote) | Some(AttributeType::Verse) => {\n                if idx == 2 {\n                    self.attributes\n                        .insert(String::from(\"citation\"), String::from(attribute.trim()));\n                }\n            }")]),
("anchor ignored","bug",[(T,"            if !self.attributes.contains_key(\"id\") {\n                self.attributes.insert(\"id\".to_string(), id);\n            }","            if self.attributes.is_empty() {\n                self.attributes.insert(\"id\".to_string(), id);\n            }")]),
("long ones only","bug",[(T,"                    } else if !attribute.trim().is_empty() {","                    } else if attribute.len() > 2 {")]),
("entry","same",[(T,"            if !self.attributes.contains_key(\"id\") {\n                self.attributes.insert(\"id\".to_string(), id);\n            }","            self.attributes.entry(\"id\".to_string()).or_insert(id);")]),
("extend roles","same",[(T,"                        for role in values {\n                            self.roles.push(role.to_string());\n                        }","                        self.roles.extend(values.iter().map(|role| role.to_string()));")]),
("early continue","same",[(T,"        for (idx, attribute) in attributes.iter_mut().enumerate() {","        for (idx, attribute) in attributes.iter_mut().enumerate() {\n            if attribute.is_empty() {\n                continue;\n            }")]),
("role loop","same",[(T,"                        for role in values {\n                            self.roles.push(role.to_string());\n                        }","                        values.iter().for_each(|role| self.roles.push(role.to_string()));")]),
("guards","same",[(T,"            Some(AttributeType::Quote) | Some(AttributeType::Verse) if idx == 2 => {","            Some(AttributeType::Verse) | Some(AttributeType::Quote) if idx == 2 => {")]),
("if chain","same",[(T,"        if matches!(token.token_type(), TokenType::BlockAnchor) {\n            let id = token.lexeme[2..token.lexeme.len() - 2].to_string(); // skip the \"[[\" and \"]]\"\n            if !self.attributes.contains_key(\"id\") {\n                self.attributes.insert(\"id\".to_string(), id);\n            }\n        } else {\n            let attribute_list = token.lexeme[1..token.lexeme.len() - 1].to_string();\n            self.process_attributes(extract_attributes(&attribute_list));\n        }","        if !matches!(token.token_type(), TokenType::BlockAnchor) {\n            let attribute_list = &token.lexeme[1..token.lexeme.len() - 1];\n            self.process_attributes(extract_attributes(attribute_list));\n            return;\n        }\n        if self.attributes.contains_key(\"id\") {\n            return;\n        }\n        let id = token.lexeme[2..token.lexeme.len() - 2].to_string();\n        self.attributes.insert(\"id\".to_string(), id);")]),
("new delegates","same",[(T,"        if matches!(token.token_type(), TokenType::BlockAnchor) {\n            let id = token.lexeme[2..token.lexeme.len() - 2].to_string(); // skip the \"[[\" and \"]]\"\n            new_block_metadata.attributes.insert(\"id\".to_string(), id);\n        } else {\n            let attribute_list = token.lexeme[1..token.lexeme.len() - 1].to_string();\n            new_block_metadata.process_attributes(extract_attributes(&attribute_list));\n        }\n        new_block_metadata","        new_block_metadata.add_metadata_from_token(token);\n        new_block_metadata")]),
("two roles","bug",[(T,"            .filter(|s| !s.is_empty())","            .filter(|s| !s.is_empty())\n            .take(2)")]),
("two parts","bug",[("src/utils.rs","        .split(',')\n        .map(|s| s.to_string())","        .split(',')\n        .take(3)\n        .map(|s| s.to_string())")]),
]
