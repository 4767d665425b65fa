D='src/backends/docx/document.rs'; S='src/backends/docx/styles.rs'
CASES=[
("style not restored","bug",[(D,"        self.current_style = style;\n        Ok(docx)\n    }\n\n    fn add_list(","        let _ = style;\n        Ok(docx)\n    }\n\n    fn add_list(")]),
("section title not reset","bug",[(D,"            // to ensure we go back\n            self.reset_style();\n        }\n\n        for block","        }\n\n        for block")]),
("restored only for some","bug",[(D,"        self.current_style = style;\n        Ok(docx)\n    }\n\n    fn add_list(","        if !matches!(block, Block::LeafBlock(_)) {\n            self.current_style = style;\n        }\n        Ok(docx)\n    }\n\n    fn add_list(")]),
("early return","bug",[(D,"            Block::DiscreteHeading => {}  //","            Block::DiscreteHeading => return self.set_style(docx, DocumentStyles::Heading(1)), //")]),
("saved after","bug",[(D,"        let style = self.current_style.clone();\n        match block {","        match block {"),(D,"        self.current_style = style;\n        Ok(docx)","        let style = self.current_style.clone();\n        self.current_style = style;\n        Ok(docx)")]),
("no pop","bug",[(D,"                variants.pop();\n","")]),
("pop in loop","bug",[(D,"                    runs.extend(self.runs_from_inline_with_variant(inline, variants))\n                }\n                variants.pop();","                    runs.extend(self.runs_from_inline_with_variant(inline, variants));\n                    variants.pop();\n                }")]),
("pop only when","bug",[(D,"                variants.pop();\n","                if variants.len() > 1 { variants.pop(); }\n")]),
("ref pushes","bug",[(D,"                for inline in iref.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, variants))","                variants.push(&InlineSpanVariant::Emphasis);\n                for inline in iref.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, variants))")]),
("mark is bold","bug",[(D,'run = run.highlight("yellow")','run = run.bold()')]),
("code unformatted","bug",[(D,'''                            InlineSpanVariant::Code => {
                                run = run.fonts(RunFonts::new().ascii("Courier New"))
                            }''','''                            InlineSpanVariant::Code => {}''')]),
("run property replaced","bug",[(D,"run.run_property.vert_align(VertAlignType::SubScript)","docx_rs::RunProperty::new().vert_align(VertAlignType::SubScript)")]),
("sub like super","bug",[(D,"run.run_property.vert_align(VertAlignType::SubScript)","run.run_property.vert_align(VertAlignType::SuperScript)")]),
("swap via replace","same",[(D,"        let style = self.current_style.clone();","        let style = std::mem::replace(&mut self.current_style, DocumentStyles::Normal);\n        self.current_style = style.clone();")]),
("wrapper","same",[(D,"        // the style of a block ends with it\n        let style = self.current_style.clone();\n        match block {","        match block {"),
  (D,"        self.current_style = style;\n        Ok(docx)\n    }\n","        Ok(docx)\n    }\n"),
  (D,"    pub fn add_block_to_doc(","    pub fn add_block_to_doc(&mut self, docx: Docx, block: &Block) -> Result<Docx, DocxRenderError> {\n        let before = self.current_style.clone();\n        let docx = self.add_any_block(docx, block)?;\n        self.current_style = before;\n        Ok(docx)\n    }\n\n    fn add_any_block(")]),
("clone the variants","same",[(D,"                variants.push(&span.variant);\n                for inline in span.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, variants))\n                }\n                variants.pop();","                let mut inner = variants.clone();\n                inner.push(&span.variant);\n                for inline in span.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, &mut inner))\n                }")]),
("truncate","same",[(D,"                variants.push(&span.variant);\n                for inline in span.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, variants))\n                }\n                variants.pop();","                let depth = variants.len();\n                variants.push(&span.variant);\n                for inline in span.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, variants))\n                }\n                variants.truncate(depth);")]),
("formatting fn","same",[(D,"                    for variant in variants {\n                        match variant {","                    for variant in variants {\n                        run = formatted(run, variant);\n                    }\n                }\n                if false {\n                    for variant in [&InlineSpanVariant::Strong] {\n                        match variant {"),
   (D,"pub fn asciidocr_default_docx()","""fn formatted(mut run: Run, variant: &InlineSpanVariant) -> Run {
    match variant {
        InlineSpanVariant::Strong => run.bold(),
        InlineSpanVariant::Emphasis => run.italic(),
        InlineSpanVariant::Code => run.fonts(RunFonts::new().ascii("Courier New")),
        InlineSpanVariant::Mark => run.highlight("yellow"),
        InlineSpanVariant::Subscript => {
            run.run_property = run.run_property.vert_align(VertAlignType::SubScript);
            run
        }
        InlineSpanVariant::Superscript => {
            run.run_property = run.run_property.vert_align(VertAlignType::SuperScript);
            run
        }
        InlineSpanVariant::Footnote => run.highlight("blue"),
    }
}

pub fn asciidocr_default_docx()""")]),
("iterator","same",[(D,"        for block in section.blocks.iter() {\n            docx = self.add_block_to_doc(docx, block)?\n        }\n        Ok(docx)","        section\n            .blocks\n            .iter()\n            .try_fold(docx, |docx, block| self.add_block_to_doc(docx, block))")]),
("helper loop","same",[(D,"        for child in parent.blocks.iter() {\n            docx = self.add_block_to_doc(docx, child)?\n        }\n        Ok(docx)\n    }\n\n    fn add_stray","        self.add_blocks(docx, &parent.blocks)\n    }\n\n    fn add_blocks(&mut self, mut docx: Docx, blocks: &[Block]) -> Result<Docx, DocxRenderError> {\n        for child in blocks {\n            docx = self.add_block_to_doc(docx, child)?;\n        }\n        Ok(docx)\n    }\n\n    fn add_stray")]),
("innermost only","bug",[(D,"                    for variant in variants {\n","                    if let Some(variant) = variants.last() {\n")]),
("first skipped","bug",[(D,"                    for variant in variants {\n","                    for variant in variants.iter().skip(1) {\n")]),
("reversed","same",[(D,"                    for variant in variants {\n","                    for variant in variants.iter().rev() {\n")]),
("iter","same",[(D,"                if !variants.is_empty() {\n                    for variant in variants {\n","                {\n                    for variant in variants.iter() {\n")]),
]
