D='src/backends/docx/document.rs'; S='src/backends/docx/styles.rs'; N='src/backends/docx/numbering.rs'
CASES=[
("id differs","bug",[(S,'DocumentStyles::Quote => "Quote".into()','DocumentStyles::Quote => "Block Quote".into()')]),
("generated differs","bug",[(S,'Style::new("Definition Term", StyleType::Paragraph)','Style::new("DefinitionTerm", StyleType::Paragraph)')]),
("heading format","bug",[(S,'DocumentStyles::Heading(level) => format!("Heading {}", level)','DocumentStyles::Heading(level) => format!("Heading{}", level)')]),
("off by one","bug",[(S,'let heading_style_name = format!("Heading {}", level);','let heading_style_name = format!("Heading {}", level + 1);')]),
("set without add","bug",[(D,"        self.current_style = style;\n        self.add_style(docx, self.current_style.generate())","        self.current_style = style;\n        Ok(docx)")]),
("add before set","bug",[(D,"        self.current_style = style;\n        self.add_style(docx, self.current_style.generate())","        let docx = self.add_style(docx, self.current_style.generate())?;\n        self.current_style = style;\n        Ok(docx)")]),
("reset to undefined","bug",[(D,"        self.current_style = DocumentStyles::Normal;\n    }","        self.current_style = DocumentStyles::Monospace;\n    }")]),
("default lacks no spacing","bug",[(D,"        .add_style(DocumentStyles::no_spacing())\n","")]),
("default lacks title","bug",[(D,"        .add_style(DocumentStyles::title())\n","")]),
("based on undefined","bug",[(S,'.based_on("Title")','.based_on("Section Title")')]),
("unordered without numbering","bug",[(D,"        // the items refer to this\n        docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));","        // the items refer to this\n        if !matches!(list.variant, ListVariant::Unordered) {\n            docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));\n        }")]),
("callout no abstract","bug",[(D,"                docx = docx.add_abstract_numbering(add_ordered_abstract_numbering(self.numbering));","                if matches!(list.variant, ListVariant::Ordered) {\n                    docx = docx.add_abstract_numbering(add_ordered_abstract_numbering(self.numbering));\n                }")]),
("wrong abstract","bug",[(D,"Numbering::new(self.numbering, self.numbering)","Numbering::new(self.numbering, 1)")]),
("table style dropped","bug",[(D,"        docx = self.set_style(docx, DocumentStyles::Table)?;\n","")]),
("shared id","bug",[(S,'DocumentStyles::Verse => "Verse".into()','DocumentStyles::Verse => "Quote".into()'),(S,'Style::new("Verse"','Style::new("Quote"')]),
("literal style","bug",[(D,"let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());",'let mut para = Paragraph::new().style("TableCell");')]),
("use style_id in generate","same",[(S,'let heading_style_name = format!("Heading {}", level);','let _ = level;\n                let heading_style_name = self.style_id();'),(S,'DocumentStyles::Quote => Style::new("Quote", StyleType::Paragraph)','DocumentStyles::Quote => Style::new(self.style_id(), StyleType::Paragraph)')]),
("format shorthand","same",[(S,'DocumentStyles::Heading(level) => format!("Heading {}", level)','DocumentStyles::Heading(level) => format!("Heading {level}")')]),
("rename ids","same",[(S,'DocumentStyles::Quote => "Quote".into()','DocumentStyles::Quote => "Block Quote".into()'),(S,'Style::new("Quote"','Style::new("Block Quote"')]),
("generate first","same",[(D,"        self.current_style = style;\n        self.add_style(docx, self.current_style.generate())","        let generated = style.generate();\n        self.current_style = style;\n        self.add_style(docx, generated)")]),
("generate and add first","same",[(D,"        self.current_style = style;\n        self.add_style(docx, self.current_style.generate())","        let docx = self.add_style(docx, style.generate())?;\n        self.current_style = style;\n        Ok(docx)")]),
("default in loop","same",[(D,"""    Docx::new()
        .add_style(DocumentStyles::normal())
        .add_style(DocumentStyles::no_spacing())
        .add_style(DocumentStyles::title())
""","""    let mut docx = Docx::new();
    for style in [
        DocumentStyles::normal(),
        DocumentStyles::no_spacing(),
        DocumentStyles::title(),
    ] {
        docx = docx.add_style(style);
    }
    docx
""")]),
("numbering helper","same",[(D,"        // the items refer to this\n        docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));","        docx = self.define_numbering(docx);"),(D,"    fn add_list_item(","    fn define_numbering(&self, docx: Docx) -> Docx {\n        docx.add_numbering(Numbering::new(self.numbering, self.numbering))\n    }\n\n    fn add_list_item(")]),
("numbering local","same",[(D,"        self.numbering += 1;\n","        self.numbering += 1;\n        let number = self.numbering;\n"),(D,"Numbering::new(self.numbering, self.numbering)","Numbering::new(number, number)"),(D,"add_bullet_abstract_numbering(self.numbering)","add_bullet_abstract_numbering(number)")]),
("numbering first","same",[(D,"        // the items refer to this\n        docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));\n",""),(D,"        self.numbering += 1;\n","        self.numbering += 1;\n        docx = docx.add_numbering(Numbering::new(self.numbering, self.numbering));\n")]),
("set style match","same",[(D,"docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;","let style = DocumentStyles::OrderedListParagraph(self.numbering);\n                docx = self.set_style(docx, style)?;")]),
("no count","bug",[(D,"        self.numbering += 1;\n","        if self.numbering == 0 { self.numbering += 1; }\n")]),
("count restored","bug",[(D,"        self.numbering += 1;\n","        let outer = self.numbering;\n        self.numbering += 1;\n"),(D,"            docx = self.add_block_to_doc(docx, item)?\n        }\n        Ok(docx)\n    }\n\n    fn add_list_item","            docx = self.add_block_to_doc(docx, item)?\n        }\n        self.numbering = outer;\n        Ok(docx)\n    }\n\n    fn add_list_item")]),
]
