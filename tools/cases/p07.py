B='src/graph/blocks.rs'; I='src/graph/inlines.rs'; L='src/graph/lists.rs'; A='src/graph/asg.rs'
CASES=[
("text skip dlistitem blocks","bug",[(B,'''                for inline in block.principal.iter() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                block_text.push('\\n');

                for block in block.blocks.iter() {
                    block_text.push_str(&block.block_text())
                }
            }
            Block::Break''','''                for inline in block.principal.iter() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                block_text.push('\\n');
            }
            Block::Break''')]),
("text ref inlines skip","bug",[(I,'''            Inline::InlineRef(iref) => {
                let mut values = String::new();
                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }
                values
            }''','''            Inline::InlineRef(_) => String::new(),''')]),
("text ref only one level","bug",[(I,'''                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }''','''                for inline in &iref.inlines {
                    if let Inline::InlineLiteral(lit) = inline {
                        values.push_str(&lit.value)
                    }
                }''')]),
("text first inline only","bug",[(I,'''                for inline in &iref.inlines {
                    values.push_str(''','''                for inline in iref.inlines.iter().take(1) {
                    values.push_str(''')]),
("text break early","bug",[(I,'''                for inline in &span.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }''','''                for inline in &span.inlines {
                    values.push_str(&inline.extract_values_to_string());
                    if values.len() > 80 { break }
                }''')]),
("ids skip parent blocks","bug",[(B,'''            Block::ParentBlock(block) => {
                for child in block.blocks.iter() {
                    block_id_hash.extend(child.id_hashes());
                }
            }''','')]),
("ids only sections","bug",[(A,'''        self.document_id_hash.extend(block.id_hashes());
''','''        if block.is_section() {
            self.document_id_hash.extend(block.id_hashes());
        }
''')]),
("ids leaf id","bug",[(B,'''            Block::LeafBlock(block) => {
                if let Some(metadata) = &block.metadata {
                    metadata.attributes.get("id").cloned()
                } else {
                    None
                }
            }
            Block::ParentBlock(block) => {
                if let''','''            Block::ParentBlock(block) => {
                if let''')]),
("xref skip list items","bug",[(B,'''                for child in block.items.iter_mut() {
                    inlines.extend(child.inlines_mut())
                }
            }
            Block::DList(block)''','''                for child in block.items.iter_mut().skip(1) {
                    inlines.extend(child.inlines_mut())
                }
            }
            Block::DList(block)''')]),
("footnote section child","bug",[(A,'''        for block in self.blocks.iter_mut() {
            footnote_defs.extend(''','''        for block in self.blocks.iter_mut().filter(|b| !b.is_section()).take(2) {
            footnote_defs.extend(''')]),
("footnote filter","bug",[(A,'''        for block in self.blocks.iter_mut() {
            footnote_defs.extend(''','''        for block in self.blocks.iter_mut().filter(|b| !b.is_section()) {
            footnote_defs.extend(''')]),
("footnote not stored","bug",[(A,'''        self.push_block(Block::ParentBlock(ParentBlock::new_footnotes_container(
            footnote_defs,
        )))''','''        let c = Block::ParentBlock(ParentBlock::new_footnotes_container(footnote_defs));
        if self.header.is_some() { self.push_block(c) } else { Ok(()) }''')]),
("footnote list continue","bug",[(L,'''        for child in self.blocks.iter_mut() {
            let child_footnoes''','''        for child in self.blocks.iter_mut() {
            if child.is_section() { continue; }
            let child_footnoes''')]),
("text todo for Break","bug",[(B,'''            Block::Break(_) => {} // break doesn't have literals
''','')]),
# refactorings
("text via iterators","same",[(I,'''                let mut values = String::new();
                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }
                values''','''                iref.inlines.iter().map(|i| i.extract_values_to_string()).collect::<String>()''')]),
("text via fn item","same",[(I,'''                let mut values = String::new();
                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }
                values''','''                iref.inlines.iter().map(Inline::extract_values_to_string).collect::<Vec<_>>().concat()''')]),
("text fold","same",[(A,'''        let mut graph_text = String::new();
        for block in self.blocks.iter() {
            graph_text.push_str(&block.block_text())
        }
        graph_text''','''        self.blocks.iter().fold(String::new(), |mut acc, b| { acc.push_str(&b.block_text()); acc })''')]),
("text helper","same",[(I,'''            Inline::InlineRef(iref) => {
                let mut values = String::new();
                for inline in &iref.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }
                values
            }''','''            Inline::InlineRef(iref) => collect_values(&iref.inlines),'''),(I,'''impl Inline {
    pub fn push_inline''','''fn collect_values(inlines: &[Inline]) -> String {
    let mut values = String::new();
    for inline in inlines {
        values.push_str(&inline.extract_values_to_string())
    }
    values
}

impl Inline {
    pub fn push_inline''')]),
("ids or-pattern helper","same",[(B,'''            Block::List(block) => {
                for child in block.items.iter() {
                    block_id_hash.extend(child.id_hashes());
                }
            }
            Block::DList(block) => {
                for child in block.items.iter() {
                    block_id_hash.extend(child.id_hashes());
                }
            }''','''            Block::List(List { items, .. }) | Block::DList(DList { items, .. }) => {
                for child in items {
                    block_id_hash.extend(child.id_hashes());
                }
            }''')]),
("ids metadata helper","same",[(B,'''            Block::Section(block) => {
                if let Some(metadata) = &block.metadata {
                    metadata.attributes.get("id").cloned()
                } else {
                    None
                }
            }
            Block::List(block) => {
                if let''','''            Block::Section(block) => block.metadata.as_ref().and_then(|m| m.attributes.get("id").cloned()),
            Block::List(block) => {
                if let''')]),
("index loop","same",[(I,'''                for inline in &span.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }''','''                let mut i = 0;
                while i < span.inlines.len() {
                    values.push_str(&span.inlines[i].extract_values_to_string());
                    i += 1;
                }''')]),
("xrefs direct recursion","same",[(A,'''            for inline in block.inlines_mut() {
                // easier to push the matching down to the Inline enum
                inline.attempt_xref_standardization(&self.document_id_hash);
            }''','''            block.inlines_mut().into_iter().for_each(|inline| inline.attempt_xref_standardization(&self.document_id_hash));''')]),
("footnotes flat_map chain","same",[(B,'''                for child in block.items.iter_mut() {
                    let child_footnoes =
                        child.extract_footnote_definitions(local_count, document_id)?;
                    local_count += child_footnoes.len();
                    extracted.extend(child_footnoes);
                }
            }
            Block::DList''','''                extract_all(&mut block.items, &mut local_count, &mut extracted, document_id)?;
            }
            Block::DList'''),(B,'''/// Replaces footnotes in the inlines (or''','''fn extract_all(blocks: &mut [Block], count: &mut usize, out: &mut Vec<Block>, id: &str) -> Result<(), BlockError> {
    for child in blocks.iter_mut() {
        let found = child.extract_footnote_definitions(*count, id)?;
        *count += found.len();
        out.extend(found);
    }
    Ok(())
}
/// Replaces footnotes in the inlines (or''')]),
("text early return per variant","same",[(B,'''    pub fn block_text(&self) -> String {
        let mut block_text = String::new();
''','''    pub fn block_text(&self) -> String {
        let mut block_text = String::new();
        if let Block::LeafBlock(leaf) = self {
            for inline in leaf.inlines.iter() {
                block_text.push_str(&inline.extract_values_to_string())
            }
            block_text.push('\\n');
            return block_text;
        }
''')]),
("text writer param","same",[(A,'''            graph_text.push_str(&block.block_text())''','''            let t = block.block_text();
            if !t.is_empty() { graph_text.push_str(&t) }''')]),
("text while let","same",[(I,'''                for inline in &span.inlines {
                    values.push_str(&inline.extract_values_to_string())
                }''','''                let mut it = span.inlines.iter();
                while let Some(inline) = it.next() {
                    values += &inline.extract_values_to_string();
                }''')]),
]
