D='src/backends/docx/document.rs'; M='src/backends/docx/mod.rs'
CASES=[
("no header","bug",[(M,"            docx = docx.add_paragraph(para);\n","            let _ = para;\n")]),
("dlist children","bug",[(D,"            for block in item.blocks.iter() {\n                docx = self.add_block_to_doc(docx, block)?\n            }","            let _ = &item.blocks;")]),
("terms","bug",[(D,"        terms_para = self.add_inlines_to_para(terms_para, item.terms());\n","")]),
("ref text","bug",[(D,"                for inline in iref.inlines.iter() {\n                    runs.extend(self.runs_from_inline_with_variant(inline, &mut variants))\n                }","                let _ = iref;")]),
("run not pushed","bug",[(D,"                runs.push(run)\n","                if !self.page_break_before { runs.push(run) }\n")]),
("skip first run","bug",[(D,"            for run in self.runs_from_inline(inline) {","            for run in self.runs_from_inline(inline).into_iter().skip(1) {")]),
("last row lost","bug",[(D,"        if !current_row.is_empty() {\n            rows.push(TableRow::new(current_row));\n        }","")]),
("caption lost","bug",[(D,"            docx = self.add_paragraph(docx, caption)?;\n        }\n        Ok(docx)","            let _ = caption;\n        }\n        Ok(docx)")]),
("para not added","bug",[(D,"        para = self.add_inlines_to_para(para, item.principal());\n        docx = self.add_paragraph(docx, para)?;\n        // add any","        para = self.add_inlines_to_para(para, item.principal());\n        if self.numbering > 0 {\n            docx = self.add_paragraph(docx, para)?;\n        }\n        // add any")]),
("quote first child","bug",[(D,"        docx = self.set_style(docx, DocumentStyles::Quote)?;\n        for child in parent.blocks.iter() {","        docx = self.set_style(docx, DocumentStyles::Quote)?;\n        for child in parent.blocks.iter().take(1) {")]),
("stray cell ignored","bug",[(D,"docx = self.add_stray_cell(docx, cell)?","{let _ = cell;}")]),
("section title skipped when","bug",[(D,"        if !section.title().is_empty() {","        if section.level < 4 {")]),
("cell dropped on wrap","bug",[(D,"            current_row.push(cell);\n            // see if we need a new row\n            if current_row.len() == cols {\n                rows.push(TableRow::new(std::mem::take(&mut current_row)));\n            }","            if current_row.len() == cols {\n                rows.push(TableRow::new(std::mem::take(&mut current_row)));\n            } else {\n                current_row.push(cell);\n            }")]),
("result of add ignored","bug",[(D,"            docx = self.add_paragraph(docx, title)?;\n        }\n        Ok(docx)","            let _ = self.add_paragraph(docx.clone(), title)?;\n        }\n        Ok(docx)")]),
("try_fold","same",[(D,"        for block in section.blocks.iter() {\n            docx = self.add_block_to_doc(docx, block)?\n        }\n        Ok(docx)","        section\n            .blocks\n            .iter()\n            .try_fold(docx, |docx, block| self.add_block_to_doc(docx, block))")]),
("flat_map runs","same",[(D,"        for inline in inlines.iter() {\n            for run in self.runs_from_inline(inline) {\n                para = para.add_run(run)\n            }\n        }\n        para","        for run in inlines.iter().flat_map(|inline| self.runs_from_inline(inline)) {\n            para = para.add_run(run);\n        }\n        para")]),
("chunks","same",[(D,"        let mut rows: Vec<TableRow> = vec![];\n        let mut current_row: Vec<TableCell> = vec![];\n        for block in table.blocks.iter() {\n            let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());\n            para = self.add_inlines_to_para(para, block.inlines());\n            let cell = TableCell::new().add_paragraph(para);\n            current_row.push(cell);\n            // see if we need a new row\n            if current_row.len() == cols {\n                rows.push(TableRow::new(std::mem::take(&mut current_row)));\n            }\n        }\n        // the last row may be incomplete\n        if !current_row.is_empty() {\n            rows.push(TableRow::new(current_row));\n        }","        let mut rows: Vec<TableRow> = vec![];\n        for row in table.blocks.chunks(cols.max(1)) {\n            let mut cells: Vec<TableCell> = vec![];\n            for block in row {\n                let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());\n                para = self.add_inlines_to_para(para, block.inlines());\n                cells.push(TableCell::new().add_paragraph(para));\n            }\n            rows.push(TableRow::new(cells));\n        }")]),
("helper title para","same",[(D,"            let mut title = Paragraph::new();\n            title = self.add_inlines_to_para(title, parent.title.clone());\n            docx = self.add_paragraph(docx, title)?;\n        }\n        docx = self.set_style","            docx = self.add_inline_paragraph(docx, parent.title.clone())?;\n        }\n        docx = self.set_style"),(D,"    fn add_open_block(","    fn add_inline_paragraph(\n        &mut self,\n        docx: Docx,\n        inlines: Vec<Inline>,\n    ) -> Result<Docx, DocxRenderError> {\n        let para = self.add_inlines_to_para(Paragraph::new(), inlines);\n        self.add_paragraph(docx, para)\n    }\n\n    fn add_open_block(")]),
("let chains","same",[(M,"    if let Some(header) = &graph.header {\n        if !header.title.is_empty() {\n            let mut para = Paragraph::new().style(\"Title\");\n            para = writer.add_inlines_to_para(para, header.title());\n            docx = docx.add_paragraph(para);\n        }\n    }","    match &graph.header {\n        Some(header) if !header.title.is_empty() => {\n            let para = writer.add_inlines_to_para(Paragraph::new().style(\"Title\"), header.title());\n            docx = docx.add_paragraph(para);\n        }\n        _ => {}\n    }")]),
]
