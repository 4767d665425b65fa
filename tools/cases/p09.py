M="src/bin/asciidocr/main.rs"; C="src/bin/asciidocr/cli.rs"; D="src/backends/docx/mod.rs"; H="src/backends/htmls.rs"; P="src/parser.rs"; W="src/backends/docx/document.rs"; S="src/scanner/mod.rs"; G="src/graph/asg.rs"; I="src/graph/inlines.rs"; A="src/graph/metadata.rs"
CASES=[
("P09 create first","bug",[(D,"    let mut writer = document::DocxWriter::new();","    let file = File::create(output_path).map_err(DocxRenderError::from)?;\n    let mut writer = document::DocxWriter::new();"),(D,"    // only create the output once there is something to write\n    let file = File::create(output_path).map_err(DocxRenderError::from)?;\n","")]),
("P09 html create","bug",[(M,"        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),","        Backends::Htmlbook => {\n            let destination = read_output(args);\n            if let Some(path) = &destination {\n                fs::File::create(path)?;\n            }\n            render_string(render_htmlbook(&graph)?, destination)\n        }")]),
("P09 remove old","bug",[(M,"fn run(args: Cli) -> Result<()> {","fn run(args: Cli) -> Result<()> {\n    if let Some(output) = &args.output {\n        let _ = fs::remove_file(output);\n    }")]),
("P09 cli create","bug",[(C,"                Some(PathBuf::from(output.clone()))","                let path = PathBuf::from(output.clone());\n                let _ = fs::OpenOptions::new().create(true).append(true).open(&path);\n                Some(path)"),(M,"    if args.count {","    let destination = read_output(Cli { file: args.file.clone(), output: args.output.clone(), backend: Backends::Json, count: false, do_not_resolve_targets: false });\n    let _ = destination;\n    if args.count {")]),
("P09 json writer","bug",[(M,"        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, read_output(args)),","        Backends::Json => match read_output(args) {\n            Some(path) => Ok(serde_json::to_writer_pretty(fs::File::create(path)?, &graph)?),\n            None => render_string(serde_json::to_string_pretty(&graph)?, None),\n        },")]),
("P09 helper","same",[(M,"        Some(out_file) => fs::write(out_file, result)?,","        Some(out_file) => save(out_file, &result)?,"),(M,"fn render_string(","fn save(path: PathBuf, text: &str) -> std::io::Result<()> {\n    fs::write(path, text)\n}\n\nfn render_string(")]),
("P09 file write","same",[(M,"        Some(out_file) => fs::write(out_file, result)?,","        Some(out_file) => {\n            let mut file = fs::File::create(out_file)?;\n            std::io::Write::write_all(&mut file, result.as_bytes())?\n        }")]),
("P09 pack memory","same",[(D,"    // only create the output once there is something to write\n    let file = File::create(output_path).map_err(DocxRenderError::from)?;\n    match docx.build().pack(file) {","    let built = docx.build();\n    let file = File::create(output_path).map_err(DocxRenderError::from)?;\n    match built.pack(file) {")]),
]
