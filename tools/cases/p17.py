B="src/graph/blocks.rs"; I="src/graph/inlines.rs"; L="src/graph/lists.rs"; N="src/graph/nodes.rs"; M="src/graph/metadata.rs"; A="src/graph/asg.rs"
CASES=[
("reftext skipped","bug",[(B,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    reftext','    #[serde(skip)]\n    reftext')]),
("caption skipped","bug",[(B,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    pub caption','    #[serde(skip)]\n    pub caption')]),
("short captions","bug",[(B,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    pub caption','    #[serde(skip_serializing_if = "too_short")]\n    pub caption'),(B,"impl BlockMacro {","fn too_short(inlines: &[Inline]) -> bool {\n    inlines.len() < 2\n}\n\nimpl BlockMacro {")]),
("is_some","bug",[(B,'    #[serde(skip_serializing_if = "Option::is_none")]\n    pub variant','    #[serde(skip_serializing_if = "Option::is_some")]\n    pub variant')]),
("same name","bug",[(I,'    Superscript,\n','    #[serde(rename = "subscript")]\n    Superscript,\n')]),
("form two","bug",[(B,"matches!(self, LeafBlockForm::Paragraph)","matches!(self, LeafBlockForm::Paragraph | LeafBlockForm::Indented)")]),
("attributes filter","bug",[(M,"attributes.iter().collect::<BTreeMap<_, _>>()","attributes.iter().filter(|(key, _)| key.as_str() != \"id\").collect::<BTreeMap<_, _>>()")]),
("dlist named list","bug",[(L,'name: "dlist".to_string()','name: "list".to_string()')]),
("variant skipped","bug",[(B,"    Break(Break),","    #[serde(skip)]\n    Break(Break),")]),
("roles skipped","bug",[(M,"    pub roles: Vec<String>,","    #[serde(skip)]\n    pub roles: Vec<String>,")]),
("options if","bug",[(M,"    pub roles: Vec<String>,","    #[serde(skip_serializing_if = \"one_role\")]\n    pub roles: Vec<String>,"),(M,"impl ElementMetadata {","fn one_role(roles: &Vec<String>) -> bool {\n    roles.len() == 1\n}\n\nimpl ElementMetadata {")]),
("own empty","same",[(B,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    pub caption','    #[serde(skip_serializing_if = "no_text")]\n    pub caption'),(B,"impl BlockMacro {","fn no_text(inlines: &[Inline]) -> bool {\n    inlines.len() == 0\n}\n\nimpl BlockMacro {")]),
("own empty 2","same",[(B,'    #[serde(skip_serializing_if = "Vec::is_empty")]\n    pub caption','    #[serde(skip_serializing_if = "no_text")]\n    pub caption'),(B,"impl BlockMacro {","fn no_text(inlines: &Vec<Inline>) -> bool {\n    !(inlines.len() > 0)\n}\n\nimpl BlockMacro {")]),
("form match","same",[(B,"matches!(self, LeafBlockForm::Paragraph)","match self {\n            LeafBlockForm::Paragraph => true,\n            _ => false,\n        }")]),
("state field","same",[(A,"    document_id: String,","    document_id: String,\n    #[serde(skip)]\n    footnotes: usize,"),(A,"            document_id: ","            footnotes: 0,\n            document_id: ")]),
("rename field","same",[(B,"    reftext: Vec<Inline>,","    #[serde(rename = \"reftext\")]\n    text: Vec<Inline>,"),(B,"            reftext: vec![],","            text: vec![],")]),
("btree loop","same",[(M,"attributes.iter().collect::<BTreeMap<_, _>>()","{\n            let mut sorted = BTreeMap::new();\n            for (key, value) in attributes {\n                sorted.insert(key, value);\n            }\n            sorted\n        }")]),
]
