P="src/parser.rs"; M="src/bin/asciidocr/main.rs"; C="src/bin/asciidocr/cli.rs"; D="src/backends/docx/mod.rs"; H="src/backends/htmls.rs"; B="src/graph/blocks.rs"; G="src/graph/asg.rs"; W="src/backends/docx/document.rs"
CASES=[
("include unreadable empty","bug",[(P,"fs::read_to_string(&resolved_target)\n            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?","fs::read_to_string(&resolved_target).unwrap_or_default()")]),
("include unreadable skip","bug",[(P,"let file_contents = fs::read_to_string(&resolved_target)\n            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;","let Ok(file_contents) = fs::read_to_string(&resolved_target) else {\n            return Ok(());\n        };")]),
("include lossy","bug",[(P,"let file_contents = fs::read_to_string(&resolved_target)\n            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;","let file_contents = match fs::read_to_string(&resolved_target) {\n            Ok(contents) => contents,\n            Err(_) => target.clone(),\n        };")]),
("target missing ok","bug",[(P,"                Ok(_) => Ok(()),\n                Err(e) => Err(e),\n            }\n        } else {","                Ok(_) | Err(ParserError::TargetResolution(_, _)) => Ok(()),\n                Err(e) => Err(e),\n            }\n        } else {")]),
("target ignored","bug",[(P,"match resolved_target.join(target).canonicalize() {\n                Ok(p) => Ok(p),\n                Err(_) => Err(ParserError::TargetResolution(token_line, target.into())),","match resolved_target.join(target).canonicalize() {\n                Ok(p) => Ok(p),\n                Err(_) => Ok(resolved_target.join(target)),")]),
("exit zero","bug",[(M,"        eprintln!(\"Error converting document: {:#}\", e);\n        std::process::exit(1)","        eprintln!(\"Error converting document: {:#}\", e);")]),
("exit zero 2","bug",[(M,"eprintln!(\"Error converting document: {:#}\", e);\n        std::process::exit(1)","eprintln!(\"Error converting document: {:#}\", e);\n        std::process::exit(0)")]),
("no message","bug",[(M,"        eprintln!(\"Error converting document: {:#}\", e);\n        std::process::exit(1)","        let _ = e;\n        std::process::exit(1)")]),
("write ignored","bug",[(M,"Some(out_file) => fs::write(out_file, result)?,","Some(out_file) => {\n            let _ = fs::write(out_file, result);\n        }")]),
("write ok()","bug",[(M,"Some(out_file) => fs::write(out_file, result)?,","Some(out_file) => fs::write(out_file, result).unwrap_or(()),")]),
("stdin default","bug",[(C,"io::read_to_string(io::stdin()).context(\"Error reading from stdin\")","Ok(io::read_to_string(io::stdin()).unwrap_or_default())")]),
("pack ignored","bug",[(D,"        Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),","        Err(_) => Ok(()),")]),
("html fallback","bug",[(H,"Ok(tera.render(\"htmlbook.html.tera\", &Context::from_serialize(graph)?)?)","Ok(tera\n        .render(\"htmlbook.html.tera\", &Context::from_serialize(graph)?)\n        .unwrap_or_else(|_| graph.all_text()))")]),
("footnote swallowed","bug",[(G,"            footnote_defs.extend(\n                block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?,\n            );","            if let Ok(defs) =\n                block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)\n            {\n                footnote_defs.extend(defs);\n            }")]),
("footnote flatten","bug",[(G,"            footnote_defs.extend(\n                block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?,\n            );","            footnote_defs.extend(\n                block\n                    .extract_footnote_definitions(footnote_defs.len(), &self.document_id)\n                    .into_iter()\n                    .flatten(),\n            );")]),
("block lost","bug",[(D,"        docx = writer.add_block_to_doc(docx, block)?","        docx = match writer.add_block_to_doc(docx.clone(), block) {\n            Ok(next) => next,\n            Err(_) => continue,\n        }")]),
("last err","bug",[(G,"                    possible_section.push_block(block)?;","                    possible_section.push_block(block).ok();")]),
("match instead","same",[(M,"Some(out_file) => fs::write(out_file, result)?,","Some(out_file) => match fs::write(out_file, result) {\n            Ok(()) => {}\n            Err(e) => return Err(e.into()),\n        },")]),
("returned direct","same",[(M,"        Some(out_file) => fs::write(out_file, result)?,\n        None => println!(\"{}\", result),\n    }\n    Ok(())","        Some(out_file) => Ok(fs::write(out_file, result)?),\n        None => {\n            println!(\"{}\", result);\n            Ok(())\n        }\n    }")]),
("exit code","same",[(M,"fn main() {","fn main() -> std::process::ExitCode {"),(M,"        eprintln!(\"Error converting document: {:#}\", e);\n        std::process::exit(1)\n    }","        eprintln!(\"Error converting document: {:#}\", e);\n        return std::process::ExitCode::FAILURE;\n    }\n    std::process::ExitCode::SUCCESS")]),
("map_err pack","same",[(D,"    match docx.build().pack(file) {\n        Ok(_) => Ok(()),\n        Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),\n    }","    docx.build()\n        .pack(file)\n        .map_err(|_| ConversionError::DocxRender(DocxRenderError::ZipFileError))\n        .map(|_| ())")]),
("map target","same",[(P,"            match self.origin_directory.join(target).canonicalize() {\n                Ok(p) => Ok(p),\n                Err(_) => Err(ParserError::TargetResolution(token_line, target.into())),\n            }","            self.origin_directory\n                .join(target)\n                .canonicalize()\n                .map_err(|_| ParserError::TargetResolution(token_line, target.into()))")]),
("check short","same",[(P,"            match self.resolve_target(token_line, target) {\n                Ok(_) => Ok(()),\n                Err(e) => Err(e),\n            }","            self.resolve_target(token_line, target)?;\n            Ok(())")]),
("footnote collect","same",[(G,"            footnote_defs.extend(\n                block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?,\n            );","            let defs = block.extract_footnote_definitions(footnote_defs.len(), &self.document_id)?;\n            footnote_defs.extend(defs);")]),
("graph first","same",[(M,"        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),","        Backends::Htmlbook => {\n            let html = render_htmlbook(&graph)?;\n            render_string(html, read_output(args))\n        }")]),
("html let","same",[(H,"    Ok(tera.render(\"htmlbook.html.tera\", &Context::from_serialize(graph)?)?)","    let context = Context::from_serialize(graph)?;\n    let html = tera.render(\"htmlbook.html.tera\", &context)?;\n    Ok(html)")]),
("try fold","same",[(D,"    for block in graph.blocks.iter() {\n        docx = writer.add_block_to_doc(docx, block)?\n    }","    docx = graph\n        .blocks\n        .iter()\n        .try_fold(docx, |docx, block| writer.add_block_to_doc(docx, block))?;")]),
("cols default","bug",[(W,"                cols = match col_num.parse() {\n                    Ok(c) => c,\n                    Err(_) => return Err(DocxRenderError::ColumnError),\n                }","                cols = col_num.parse().unwrap_or(0)")]),
("cols branch","bug",[(W,"                    Err(_) => return Err(DocxRenderError::ColumnError),","                    Err(_) => 1,")]),
("offset zero","bug",[(P,"                Err(_) => Err(ParserError::InternalError(\n                    \"Error parsing level offset\".to_string(),\n                )),","                Err(_) => Ok(()),")]),
("heading level one","bug",[(P,"            Err(_) => Err(ParserError::HeadingOffsetError(\n                token.line,\n                self.level_offset,\n            )),","            Err(_) => Ok(1),")]),
("cols map_err","same",[(W,"                cols = match col_num.parse() {\n                    Ok(c) => c,\n                    Err(_) => return Err(DocxRenderError::ColumnError),\n                }","                cols = col_num.parse().map_err(|_| DocxRenderError::ColumnError)?")]),
("cols if let","same",[(W,"                cols = match col_num.parse() {\n                    Ok(c) => c,\n                    Err(_) => return Err(DocxRenderError::ColumnError),\n                }","                if let Ok(c) = col_num.parse() {\n                    cols = c;\n                } else {\n                    return Err(DocxRenderError::ColumnError);\n                }")]),
("offset or_else","same",[(P,"            match value.parse::<i8>() {\n                // absolute value\n                Ok(value) => {\n                    self.level_offset = self.level_offset.saturating_add(value);\n                    Ok(())\n                }\n                // relative value, or error\n                Err(_) => Err(ParserError::InternalError(\n                    \"Error parsing level offset\".to_string(),\n                )),\n            }","            let value = value.parse::<i8>().map_err(|_| {\n                ParserError::InternalError(\"Error parsing level offset\".to_string())\n            })?;\n            self.level_offset = self.level_offset.saturating_add(value);\n            Ok(())")]),
]
