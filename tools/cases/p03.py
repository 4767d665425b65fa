P='src/parser.rs'; I='src/graph/inlines.rs'; B='src/graph/blocks.rs'
CASES=[
("no final flush","bug",[(P,"        // add any dangling inlines\n        self.add_inlines_to_block_stack()?;\n","")]),
("final pop once","bug",[(P,"        while !self.block_stack.is_empty() {\n            self.add_last_block_to_graph(&mut asg)?;\n        }","        if !self.block_stack.is_empty() {\n            self.add_last_block_to_graph(&mut asg)?;\n        }")]),
("graph add forgets else","bug",[(P,"                if next_last_block.takes_block_of_type(&block) {\n                    next_last_block.push_block(block)?;\n                } else {\n                    asg.push_block(block)?\n                }","                if next_last_block.takes_block_of_type(&block) {\n                    next_last_block.push_block(block)?;\n                }")]),
("matched not reinserted","bug",[(P,"            } else {\n                self.block_stack\n                    .insert(parent_block_idx, Block::ParentBlock(matched));\n            }","            }")]),
("next terms lost","bug",[(P,"            // then add the next terms back\n            self.inline_stack.append(&mut next_terms);\n","")]),
("charref lost in link","bug",[(P,"                    if !self.close_parent_after_push {\n                        inline_ref.inlines.push(inline_literal);\n                    } else {\n                        self.inline_stack.push_back(inline_literal)\n                    }","                    if !self.close_parent_after_push {\n                        inline_ref.inlines.push(inline_literal);\n                    }")]),
("text after break lost","bug",[(P,"                Inline::InlineBreak(_) => {\n                    // can't add to the back, so just add the literal\n                    self.inline_stack.push_back(inline_literal)\n                }","                Inline::InlineBreak(_) => {}")]),
("dangling children lost","bug",[(P,"                while children.len() > 0 {\n                    if let Some(child) = children.pop_back() {\n                        self.inline_stack.insert(open_span_idx, child);\n                    }\n                }","                if let Some(child) = children.pop_back() {\n                    self.inline_stack.insert(open_span_idx, child);\n                }")]),
("temp stack literal lost","bug",[(P,"                            last_in_stack.combine_literals(inline.extract_literal());\n                        } else {\n                            temp_stack.push(inline);\n                        }","                            last_in_stack.combine_literals(inline.extract_literal());\n                        }")]),
("header title first only","bug",[(P,"            while !self.inline_stack.is_empty() {\n                header.title.push(self.inline_stack.pop_front().unwrap());\n            }\n            return Ok(());","            header.title.push(self.inline_stack.pop_front().unwrap());\n            self.inline_stack.clear();\n            return Ok(());")]),
("clear at blank","bug",[(P,"                // clear out any inlines\n                self.in_inline_span = false;\n                self.add_inlines_to_block_stack()?;","                // clear out any inlines\n                self.in_inline_span = false;\n                self.inline_stack.clear();")]),
("macro close drops","bug",[(P,"                let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();\n                inline_macro.push_inline(subsequent_inline);","                let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();\n                if subsequent_inline.is_literal() {\n                    inline_macro.push_inline(subsequent_inline);\n                }")]),
("macro not put back","bug",[(P,"            self.inline_stack.push_back(inline_macro);\n            // note that we're now closed","            let _ = inline_macro;\n            // note that we're now closed")]),
("list item wrong parent","bug",[(P,"                Some(list) => list.push_block(last_item)?,\n                None => self.block_stack.push(last_item),","                Some(list) => list.push_block(last_item)?,\n                None => {}")]),
("leaf popped only","bug",[(P,"                    open_leaf.add_locations(token.locations().clone());\n                    self.push_block_to_stack(open_leaf)?;","                    open_leaf.add_locations(token.locations().clone());\n                    if self.in_block_continuation || !self.block_stack.is_empty() {\n                        self.push_block_to_stack(open_leaf)?;\n                    }")]),
("quote wraps nothing","bug",[(P,"                quote_block.push_block(para_block)?;\n                self.push_block_to_stack(quote_block)?;","                self.push_block_to_stack(quote_block)?;")]),
("overwrite inlines on combine","bug",[(P,"                self.inline_stack = temp_stack.into();","                self.inline_stack = VecDeque::new();\n                let _ = temp_stack;")]),
("if let chain","same",[(P,"        while !self.inline_stack.is_empty() {\n            let inline = self.inline_stack.pop_front().unwrap();\n            dlist_item.push_term(inline);\n        }","        while let Some(inline) = self.inline_stack.pop_front() {\n            dlist_item.push_term(inline);\n        }")]),
("drain header","same",[(P,"            while !self.inline_stack.is_empty() {\n                header.title.push(self.inline_stack.pop_front().unwrap());\n            }\n            return Ok(());","            header.title.extend(self.inline_stack.drain(..));\n            return Ok(());")]),
("take stack","same",[(P,"                while let Some(mut inline) = self.inline_stack.pop_front() {","                for mut inline in std::mem::take(&mut self.inline_stack) {")]),
("while let blocks","same",[(P,"        while !self.block_stack.is_empty() {\n            self.add_last_block_to_graph(&mut asg)?;\n        }","        loop {\n            if self.block_stack.is_empty() {\n                break;\n            }\n            self.add_last_block_to_graph(&mut asg)?;\n        }")]),
("drain blocks to add","same",[(P,"                let mut blocks_to_add =\n                    VecDeque::from_iter(self.block_stack.drain(parent_block_idx..));\n                //\n                let mut delimited_block = Block::ParentBlock(matched);\n                while !blocks_to_add.is_empty() {\n                    delimited_block.push_block(blocks_to_add.pop_front().unwrap())?\n                }","                let blocks_to_add = self.block_stack.split_off(parent_block_idx);\n                let mut delimited_block = Block::ParentBlock(matched);\n                for block in blocks_to_add {\n                    delimited_block.push_block(block)?;\n                }")]),
("children drain","same",[(P,"                while children.len() > 0 {\n                    if let Some(child) = children.pop_back() {\n                        self.inline_stack.insert(open_span_idx, child);\n                    }\n                }","                for (offset, child) in children.into_iter().enumerate() {\n                    self.inline_stack.insert(open_span_idx + offset, child);\n                }")]),
("match to let else","same",[(P,"            match self.block_stack.pop() {\n                Some(mut open_leaf) => {\n                    open_leaf.add_locations(token.locations().clone());\n                    self.push_block_to_stack(open_leaf)?;\n                    self.open_parse_after_as_text_type = None;\n                    Ok(())\n                }\n                None => Err(ParserError::OpenParse(token.line)),\n            }","            let Some(mut open_leaf) = self.block_stack.pop() else {\n                return Err(ParserError::OpenParse(token.line));\n            };\n            open_leaf.add_locations(token.locations().clone());\n            self.push_block_to_stack(open_leaf)?;\n            self.open_parse_after_as_text_type = None;\n            Ok(())")]),
("helper for push inline","same",[(P,"    fn handle_dangling_spans(&mut self) {","    fn push_inline(&mut self, inline: Inline) {\n        self.inline_stack.push_back(inline);\n    }\n\n    fn handle_dangling_spans(&mut self) {"),(P,"                Inline::InlineBreak(_) => {\n                    // can't add to the back, so just add the literal\n                    self.inline_stack.push_back(inline_literal)\n                }","                Inline::InlineBreak(_) => self.push_inline(inline_literal),")]),
("split macro close","same",[(P,"            let mut inline_macro = self.inline_stack.remove(inline_macro_idx).unwrap();\n            while self.inline_stack.len() > inline_macro_idx {\n                let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();\n                inline_macro.push_inline(subsequent_inline);\n            }","            let mut following = self.inline_stack.split_off(inline_macro_idx);\n            let mut inline_macro = following.pop_front().unwrap();\n            for subsequent_inline in following {\n                inline_macro.push_inline(subsequent_inline);\n            }")]),
("rename fields","same",[(P,"inline_stack","inlines_open")]),
]
