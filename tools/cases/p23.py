B='src/graph/blocks.rs'; I='src/graph/inlines.rs'; L='src/graph/lists.rs'; A='src/graph/asg.rs'
LEAF='''            Block::LeafBlock(block) => {
                for inline in block.inlines.iter() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                block_text.push('\\n');
'''
CASES=[
("leaf no sep","bug",[(B,LEAF,LEAF.replace("                block_text.push('\\n');\n",""))]),
("title no sep","bug",[(B,'''                for inline in block.title() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                block_text.push('\\n');
''','''                for inline in block.title() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
''')]),
("cell cond sep","bug",[(B,'''            Block::TableCell(block) => {
                for inline in block.inlines.iter() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                block_text.push('\\n');''','''            Block::TableCell(block) => {
                for inline in block.inlines.iter() {
                    block_text.push_str(&inline.extract_values_to_string())
                }
                if block.inlines.len() > 1 { block_text.push('\\n'); }''')]),
("sep in caller","same",[(A,"graph_text.push_str(&block.block_text())","graph_text.push_str(&block.block_text()); graph_text.push(' ')"),]),
("sep at end of block_text","same",[(B,LEAF,LEAF.replace("                block_text.push('\\n');\n","")),(B,'''            _ => todo!(),
        }
        block_text
''','''            _ => todo!(),
        }
        block_text.push_str("\\n");
        block_text
''')]),
("join","same",[(A,'''        let mut graph_text = String::new();
        for block in self.blocks.iter() {
            graph_text.push_str(&block.block_text())
        }
        graph_text''','''        self.blocks.iter().map(|b| b.block_text()).collect::<Vec<_>>().join(" ")''')]),
("collect","same",[(A,'''        let mut graph_text = String::new();
        for block in self.blocks.iter() {
            graph_text.push_str(&block.block_text())
        }
        graph_text''','''        self.blocks.iter().map(|b| b.block_text()).collect()''')]),
("collect dirty","bug",[(A,'''        let mut graph_text = String::new();
        for block in self.blocks.iter() {
            graph_text.push_str(&block.block_text())
        }
        graph_text''','''        self.blocks.iter().map(|b| b.block_text()).collect()'''),(B,LEAF,LEAF.replace("                block_text.push('\\n');\n",""))]),
("inline helper","same",[(B,LEAF,'''            Block::LeafBlock(block) => {
                for inline in block.inlines.iter() {
                    let t = inline.extract_values_to_string();
                    block_text += &t;
                }
                block_text += "\\n";
''')]),
]
