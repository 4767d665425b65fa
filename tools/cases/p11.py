exec(open("tools/cases/p09.py").read().split("CASES")[0]); B="src/graph/blocks.rs"; U="src/graph/substitutions.rs"
CASES=[
("hash order text","bug",[(A,"impl ElementMetadata {","impl ElementMetadata {\n    pub fn first_key(&self) -> Option<&String> {\n        self.attributes.keys().next()\n    }\n"),(B,"    pub fn id_hashes(&self) -> HashMap<String, Vec<Inline>> {\n","    pub fn id_hashes(&self) -> HashMap<String, Vec<Inline>> {\n        if let Block::LeafBlock(leaf) = self {\n            if let Some(meta) = &leaf.metadata {\n                if meta.first_key().is_some_and(|key| key == \"id\") {\n                    return HashMap::new();\n                }\n            }\n        }\n")]),
("attributes unsorted","bug",[(A,"    #[serde(serialize_with = \"sorted_attributes\")]\n    pub attributes","    pub attributes")]),
("time","bug",[(G,"            location: vec![Location::default()],","            location: vec![Location::default(); 1 + (std::time::SystemTime::now().elapsed().map_or(0, |d| d.subsec_nanos() as usize % 1))],")]),
("counter","bug",[(G,"    pub fn standardize_footnotes(&mut self) -> Result<(), AsgError> {","    pub fn standardize_footnotes(&mut self) -> Result<(), AsgError> {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static SEEN: AtomicUsize = AtomicUsize::new(0);\n        if SEEN.fetch_add(1, Ordering::Relaxed) > 100 {\n            self.document_id.push('x');\n        }")]),
("address","bug",[(B,"                id = id.replace(' ', \"-\");","                id = id.replace(' ', \"-\");\n                if id.is_empty() {\n                    id = format!(\"{:p}\", section);\n                }")]),
("charref map changed","bug",[(I,"                        warn!(\"Unable to find xref: {}\", iref.target)","                        crate::graph::substitutions::CHARREF_MAP\n                            .lock()\n                            .unwrap()\n                            .insert(iref.target.clone(), \"?\");\n                        warn!(\"Unable to find xref: {}\", iref.target)")]),
("hash values joined","bug",[(G,"        self.attributes = Some(doc_attributes);","        self.document_id = doc_attributes.values().cloned().collect::<Vec<_>>().join(\"\");\n        self.attributes = Some(doc_attributes);")]),
("thread local","bug",[(G,"    pub fn word_count(&self) -> usize {\n        self","    pub fn word_count(&self) -> usize {\n        thread_local!(static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });\n        N.with(|n| n.set(n.get() + 1));\n        N.with(|n| n.get()) * 0 + self")]),
("hash len","same",[(G,"        self.attributes = Some(doc_attributes);","        if doc_attributes.values().any(|value| value.is_empty()) {\n            self.document_id.shrink_to_fit();\n        }\n        self.attributes = Some(doc_attributes);")]),
("btree","same",[(G,"        self.attributes = Some(doc_attributes);","        let mut keys: Vec<&String> = doc_attributes.keys().collect();\n        keys.sort();\n        if let Some(key) = keys.first() {\n            self.document_id.reserve(key.len());\n        }\n        self.attributes = Some(doc_attributes);")]),
("static table","same",[(U,"pub static CHARREF_MAP","pub static EMPTY_TEXT: &str = \"\";\npub static CHARREF_MAP")]),
("entry api","same",[(B,"            if let Some(title) = self.title() {\n                block_id_hash.insert(id, title);\n            } else {\n                block_id_hash.insert(id, vec![]);\n            }","            block_id_hash.insert(id, self.title().unwrap_or_default());")]),
]
