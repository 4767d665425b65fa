#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, technique=technique, note=note, state=state or [])


PROPS = [
    P("P01", "Scanning any text finishes without a crash",
      "Whatever text is scanned, including multi-byte characters anywhere, constructs cut off by the end of the input, and "
      "very long lines, scanning never panics, never loops forever, never recurses with the input's length and never reads or cuts outside of the text or inside "
      "a character. Every step consumes at least one character or reports the end, and the end is reported exactly once.",
      ["inputs"],
      "for every string, at every position at which a token can start, in every scanner state",
      "The tests scan some two hundred short, mostly ASCII and well-formed snippets that end in a line break; an input that ends in the middle of a construct or has a multi-byte character at an offset the scanner skips to is not among them.",
      ["src/scanner/mod.rs", "src/scanner/tokens.rs"],
      [("token iterator", "src/scanner/mod.rs Iterator::next and the add_*/starts_*/peek* helpers")],
      ["scanning through Scanner::new / Parser::parse / the command line: returns, without panic or hang"],
      "abstract interpretation of one iterator step over the MIR: symbolic cursor positions with byte-class, bound and boundary facts, loop invariants inferred by Houdini-style weakening; inductive over steps",
      "Decided for every path of one step from an arbitrary legal state, which is inductive. Memory exhaustion and usize overflow are out of scope. Paths on which the cursor is computed by something not modelled are noted in the evidence and not decided.",
      [("cursor", "byte position of the scan, always on a character boundary within the text", "src/scanner/mod.rs Scanner")]),
    P("P02", "Tokens cover the text without gaps and carry its true position",
      "The tokens of a text, put one after the other, are the text: nothing is skipped, repeated or altered (only include tag lines are reduced to their tag). "
      "Each token's line is one plus the number of line breaks before it, its first column is one more than the previous token's last on the same line "
      "and 1 after a line break, and its last column is its first plus its length in bytes minus one.",
      ["inputs"],
      "for every string and every kind of token",
      "Scanner tests compare positions for single constructs; whether positions stay right after every possible combination of constructs in a document needs an argument over all token-producing paths.",
      ["src/scanner/mod.rs", "src/scanner/tokens.rs"],
      [("token construction", "src/scanner/mod.rs add_token and its callers"), ("position counters", "line and startcol of the scanner")],
      ["lexeme, line, startcol, endcol of scanned tokens; location fields in the JSON output"],
      "same abstract interpretation as P01, relating the fields of each constructed token and the counters after it to the consumed stretch of text",
      "Line, first column and last column are decided for every token path. Known finding: description list markers at a line end (pinned by a unit test)."),
    P("P08", "Every failure reaches the caller as an error",
      "When any step of a conversion fails (the input, an included file or a resource target cannot be read or "
      "resolved, a template cannot be rendered, an output file cannot be written, or an internal step reports an "
      "error) the library call returns an error, and the command line tool prints a message and exits with a "
      "non-zero status. No reported failure is discarded, replaced by a default or an empty document, or turned "
      "into a panic.",
      ["inputs", "fault_sequences"],
      "for every document, every environment fault (unreadable file, missing target, unwritable output) and every step that can report it",
      "The tests convert well-formed documents with readable files; only a handful assert on an error value. No test makes a read, write or render fail, so a swallowed or panicking failure is invisible to them.",
      ["src/bin/asciidocr/main.rs", "src/bin/asciidocr/cli.rs", "src/parser.rs", "src/graph/blocks.rs", "src/graph/asg.rs", "src/backends/htmls.rs", "src/backends/docx/mod.rs", "src/backends/docx/document.rs", "src/errors.rs"],
      [("fallible steps", "every call in src/ returning a Result"), ("command line driver", "src/bin/asciidocr/main.rs run/main")],
      ["return value of Parser::parse, Asg::from_str, render_htmlbook, render_docx", "exit status and stderr of the asciidocr command"],
      "dataflow over MIR: every Result carrying a failure must be propagated, inspected on its error side, or end the CLI with a non-zero status",
      "Decided for every value of a failing Result type produced in the crate. Not decided: whether the wording of a message is right, or whether a condition that ought to be an error is recognised as one."),
    P("P09", "An output file is only touched after the conversion succeeded",
      "A failed conversion leaves an already existing output file as it was and creates no new one: the output "
      "file is created or truncated only after parsing and rendering have completed without an error.",
      ["inputs", "fault_sequences", "crash_points"],
      "for every document and backend, and every step at which the conversion can fail",
      "The tests render to strings or to fresh temporary files from valid documents; no test has an existing output file and a failing conversion.",
      ["src/bin/asciidocr/main.rs", "src/backends/docx/mod.rs"],
      [("write sites", "fs::write / File::create calls in src/"), ("render steps", "render_htmlbook, render_docx, serde_json")],
      ["content of the output path after a failed run"],
      "ordering analysis over the MIR control-flow graph: no step that can still fail is reachable after a call that creates or truncates a file",
      "Covers every file-creating call in the crate and its callers up to main. An I/O error of the write itself is out of scope."),
    P("P10", "Parts of the library only have the side effects their role needs",
      "Scanning, document graph operations and rendering to a string touch no file and print nothing; parsing only "
      "reads files (for includes and target checks); nothing but the docx writer and the command line tool writes files. No "
      "library function ends the process, prints to standard output, reads standard input or the environment, starts "
      "processes or threads, or opens network connections.",
      ["inputs", "programs"],
      "for every document and every program that embeds the library",
      "Tests look at returned values; they do not notice an extra line on stdout, a file read, or (for inputs they do not contain) a process exit.",
      ["src/scanner/mod.rs", "src/parser.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/asg.rs", "src/backends/htmls.rs", "src/backends/docx/mod.rs", "src/utils.rs"],
      [("effect primitives", "std::fs, std::io, std::process, std::env, std::net, std::thread calls reachable in src/")],
      ["files, standard streams and process state around a library call"],
      "effect analysis: transitive closure of effect primitives over the resolved call graph, compared with the effects allowed for each part of the public API",
      "Calls into third-party crates are taken at their documented effects; logging through the log facade is not counted as printing."),
    P("P11", "Converting the same input gives the same output every time",
      "The result of a conversion (graph, JSON, HTML or docx content) depends only on the document, the files it refers to and the "
      "options: it does not depend on hash iteration order, time, randomness, memory addresses, or on documents converted earlier in "
      "the same process.",
      ["inputs", "histories", "schedules"],
      "for every document, every run (hash seed, time) and every sequence of earlier conversions in the process",
      "Each test converts a document once in one process and mostly compares graphs in which maps have at most one entry, so an order that varies from run to run passes.",
      ["src/graph/metadata.rs", "src/graph/asg.rs", "src/graph/blocks.rs", "src/parser.rs", "src/backends/htmls.rs", "src/backends/docx/document.rs"],
      [("hash containers", "attribute and id maps in graph/metadata.rs, graph/asg.rs, parser.rs"), ("statics", "static items in src/")],
      ["bytes of the output over repeated runs"],
      "dataflow over MIR: every iteration or serialisation of a hash container must end in an order-insensitive use; no clock, randomness, address or mutable global feeds the conversion",
      "Order-insensitive uses are recognised structurally (sorting, ordered or keyed collections, counting, keyed insertion). Zip timestamps inside docx files are the dependency's business."),
    P("P07", "Operations on a document reach every block and inline in it",
      "Collecting the text of a document (for the word count), resolving cross references, collecting the ids that can be referred to and extracting footnotes "
      "each reach every block and every inline of the document body at any depth. Nothing is left out because it sits in a section, list item, description term, table "
      "cell, caption, title, delimited block, span or link, or because of its position among its siblings, and none of them panics on any document.",
      ["inputs"],
      "for every document the parser can produce, with any nesting and any number of siblings",
      "Tests apply these operations to a handful of shallow documents; which combination of containers and contents is visited cannot be enumerated.",
      ["src/graph/asg.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs"],
      [("text", "Asg::all_text, Asg::word_count"), ("cross references", "Asg::consolidate"), ("ids", "Asg::push_block"), ("footnotes", "Asg::standardize_footnotes")],
      ["Asg::word_count / --count-words, inlines of cross references in the graph, document_id_hash, footnote container"],
      "interprocedural must-visit analysis over access paths: for each operation, every content field of every constructible node kind is handed on, whole, on every normal path",
      "Decides that everything is reached and handed on; what is then done with a reached node (the text of a literal, the target of a reference) is not decided."),
    P("P13", "Block markup counts only where it begins a line",
      "Headings, list markers, block titles, attribute and anchor lines, admonition labels, delimiters, breaks, block images, includes, comments and document attributes are recognised at the beginning "
      "of a line (also of the first) and nowhere else; delimiters and breaks only as the whole line, also on a last line without line break. Markup is recognised as what its characters say: "
      "as many equals signs as the heading's level, four of the delimiter's character, the admonition's label, the span's marker.",
      ["inputs"],
      "for every text and every position in it",
      "The tests scan markup where it belongs; what is wrongly taken for markup needs it in the middle of running text, and there are dozens of kinds.",
      ["src/scanner/mod.rs", "src/scanner/tokens.rs"],
      [("kinds of tokens", "one case per kind in src/scanner/mod.rs with its own guard"), ("tests of the line", "helpers of the scanner that look behind and ahead")],
      ["kinds of blocks and inlines in JSON output"],
      "the scanner's abstract interpretation (see P01): facts about the characters around every token that can be made",
      "Decides where each kind of token can be made and its characters, and for given beginnings of lines (one to three per kind) that nothing else can be made of them in the scanner's first state; in its other states recognition is decided only as the existence of a path."),
    P("P17", "JSON output holds everything the document model holds",
      "Every node is part of the JSON output with its name, type, location and all it holds: text, titles, ids, targets, variants, levels, attributes, roles and children, each under a key of its own. "
      "A key is left out only when its value is empty, missing, or the one default; lists and maps are written whole. Different kinds of nodes, variants and forms have different names.",
      ["inputs"],
      "for every document",
      "A field that is left out for some values or two variants written alike only show for documents that have them; the fixtures cover few of the combinations of kinds and fields.",
      ["src/graph/asg.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs", "src/graph/metadata.rs", "src/graph/macros.rs", "src/graph/nodes.rs"],
      [("serialised types", "structures and enumerations reachable from the document"), ("conditions", "functions that decide when a key is left out"), ("own writing", "functions that write a value")],
      ["JSON output"],
      "fields and variants of the document model against the MIR of their serialisation, with an abstract evaluation of the leave-out conditions",
      "Decides that everything is written; that the parser puts the right values there is not part of it. Fields that hold only the parser's state (found by where they are used) need not be written."),
    P("P21", "No document makes the converter panic",
      "Converting a document with any backend ends in output or in a reported error, whatever the document, its includes and attributes contain: the parser, the document model and the "
      "renderers never panic. No missing value or failure is unwrapped, no list or text is indexed, sliced or drained outside of its bounds or inside a character, no unsigned number is "
      "subtracted below zero, and no panic!, todo! or unreachable! can be reached.",
      ["inputs", "configurations"],
      "for every sequence of tokens the scanner can produce, nested and continued in any way, and every parser state",
      "Each of these needs a particular combination of markup (an unclosed span ahead of an image inside a link, a multi-byte character as attribute); the tests' documents are well-formed and the combinations are unbounded.",
      ["src/parser.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/metadata.rs", "src/graph/lists.rs", "src/graph/nodes.rs", "src/graph/asg.rs",
       "src/graph/macros.rs", "src/scanner/tokens.rs", "src/utils.rs", "src/backends/docx/document.rs", "src/bin/asciidocr/main.rs"],
      [("text of tokens", "slices by fixed offsets in src/graph/metadata.rs, src/utils.rs, src/graph/inlines.rs"), ("stacks", "block and inline stacks of the parser"),
       ("kinds of inlines", "operations of src/graph/inlines.rs that accept only some kinds")],
      ["exit status and message of the command line program"],
      "interprocedural abstract interpretation over MIR: variants, difference bounds over lengths and indices, leading/trailing text per kind of token (taken from the abstract interpretation of the scanner)",
      "Decides the program's own code outside of the scanner (P01 decides the scanner); panics inside of third-party crates and overflow of additions are not decided."),
    P("P23", "Words of different blocks are never counted as one",
      "In the collected text of a document, white space separates the text of any two blocks, and of a block's title, term, caption or principal text from its "
      "content, at every nesting. The word count counts every stretch of that text between white space (of any kind), and nothing else.",
      ["inputs"],
      "for every document and any nesting of blocks",
      "The only word count test has one paragraph; the defect needs two neighbouring blocks of particular kinds.",
      ["src/graph/asg.rs", "src/graph/blocks.rs"],
      [("text", "Asg::all_text, Block::block_text"), ("count", "Asg::word_count")],
      ["asciidocr --count-words, Asg::word_count, Asg::all_text"],
      "dataflow over the order of appends: between two appended texts of different fields or blocks a separator must have been appended on every path",
      "Decides separation and the way words are told apart. Which inlines contribute text at all is P07."),
    P("P03", "No text collected while parsing is lost before the document is complete",
      "Text, spans, blocks, list items and titles that the parser has collected end up in the finished document: "
      "whatever is taken out of the parser's working storage is put back or added to the document, nothing collected is overwritten, cleared, cut off "
      "or dropped on the way, and nothing is left over when the input ends. Only comments are left out, and title lines of kinds of blocks that cannot have a title.",
      ["inputs", "histories"],
      "for every document, hence every order of tokens and every state of the parser's stacks",
      "Each test parses one short construct and compares the tree. The stacks the parser shuffles between have unboundedly many states; text is lost only when two constructs meet in one particular state.",
      ["src/parser.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs", "src/graph/asg.rs", "src/graph/macros.rs"],
      [("working storage", "fields of the parser that can hold content"), ("hand-over", "every call that moves blocks or inlines in src/parser.rs and src/graph")],
      ["Parser::parse result: blocks, inlines, header; JSON, HTML and docx output"],
      "linear-use (typestate) dataflow over MIR: every value that may hold content must be consumed on every successful path, every working-storage field drained before the end",
      "Decides that collected content is not dropped; not that it lands at the right place, and not that a token's own text is collected in the first place. Known finding: titles of blocks that cannot have one.",
      [("working storage", "block and inline stacks and pending titles", "src/parser.rs Parser")]),
    P("P04", "Block and inline attributes go to the one element they precede",
      "The attributes, roles, style and anchor written ahead of a block or span are applied to exactly the next block or span: "
      "they are never discarded or overwritten while pending, never applied to an earlier element, never applied twice, and never left for "
      "a later element when the next one has been started.",
      ["inputs", "histories"],
      "for every document and every kind of element that can follow the attributes, in every parser state",
      "Tests put attributes ahead of a few kinds of blocks at the top level; the pending state lives across tokens, so what it does depends on every kind of element and nesting that can come next.",
      ["src/parser.rs", "src/graph/metadata.rs", "src/graph/blocks.rs", "src/graph/lists.rs", "src/graph/inlines.rs"],
      [("pending metadata", "metadata fields of the parser and the calls that take and store them")],
      ["metadata of the nodes in the graph and JSON output; roles and ids in HTML"],
      "typestate dataflow over MIR: pending metadata must be taken before an element is stored, exactly once, and merged rather than overwritten",
      "Decides the life cycle of pending metadata; not what an attribute means to a backend."),
    P("P12", "An included file neither leaks into what follows nor recurses without end",
      "The target of an include is resolved relative to the directory of the file that contains it, through all levels of nesting. When an included file ends, whatever its kind and content, the including file's "
      "directory and heading level offset are in force again exactly as before the include. Files that include each other, directly or through others, are reported as an error instead of recursing without end.",
      ["inputs", "histories"],
      "for every nesting of files and every content and option of an include",
      "The tests include one or two levels of files and look at the included content, not at headings and includes that come after it; a cycle of includes would abort the test run itself.",
      ["src/parser.rs", "src/errors.rs"],
      [("include handling", "src/parser.rs, parsing of include directives and resolution of targets")],
      ["headings and includes that follow an include, in the parsed document; Err from parsing files that include each other"],
      "balance dataflow (stack depth, saved and restored fields) along every path over MIR, dominance of recursion by a nesting test, dependency slices of the path that is read",
      "Decides balance, restoration, boundedness and what the path depends on; not how the operating system resolves a path, nor the arithmetic of the offset itself.",
      [("nesting", "files the parser is in", "src/parser.rs Parser")]),
    P("P15", "HTML output contains all content of the document, once and in order",
      "Every kind of node the program can build is rendered to HTML with all its non-empty content (text, title, term, caption, principal text, list items, table cells, nested blocks and inlines, link and image targets), "
      "whole, exactly once and in reading order (title, term, principal text, then items and blocks), whichever of its other parts are present or absent. A link without text shows its target.",
      ["inputs"],
      "for every kind of block and inline, every combination of present and absent parts, and every nesting",
      "The templates branch on which of a node's parts are present; the fixtures render each construct in one or two of the combinations.",
      ["templates/htmlbook/block.html.tera", "templates/htmlbook/leafblocks.html.tera", "templates/htmlbook/tables.html.tera", "templates/htmlbook/inline.html.tera", "templates/htmlbook/htmlbook.html.tera",
       "src/backends/htmls.rs", "src/graph/blocks.rs", "src/graph/inlines.rs", "src/graph/lists.rs"],
      [("templates", "templates/htmlbook/"), ("what templates see", "Serialize implementations of the graph's types")],
      ["body of the HTML output"],
      "abstract interpretation of the templates embedded in the program, per kind of node as found from the MIR of its serialisation and construction",
      "Decides presence, multiplicity and order of content fields; not metadata such as roles, attribution or alternative text."),
    P("P16", "HTML output is well-formed and rendering it never fails",
      "Whatever the document, the templates render without an error, every element they open is closed in proper nesting and only elements of HTML are used. "
      "List items, terms and descriptions, table rows, cells, captions and figure captions are only put directly into the elements they belong to, and attribute values are quoted.",
      ["inputs"],
      "for every kind of block and inline, every combination of present and absent parts and attributes, and every nesting",
      "An unclosed element, an undefined variable or a division by zero shows only for the combination of parts that leads to it; the fixtures compare a few whole documents.",
      ["templates/htmlbook/block.html.tera", "templates/htmlbook/leafblocks.html.tera", "templates/htmlbook/tables.html.tera", "templates/htmlbook/inline.html.tera", "templates/htmlbook/htmlbook.html.tera",
       "src/backends/htmls.rs", "src/graph/blocks.rs"],
      [("templates", "templates/htmlbook/"), ("what templates see", "Serialize implementations of the graph's types")],
      ["HTML output", "result of the rendering"],
      "abstract interpretation of the templates embedded in the program, with an HTML tag-stack and a defined/undefined domain",
      "Text of the document is passed through as it is (by the project's design), so markup in the text itself is out of scope."),
    P("P20", "Docx output contains every block, title, row and run of the document",
      "Rendering to docx reaches every block and inline of the document, including titles, captions, terms, table cells and nested list items, and adds what it "
      "builds for them: no paragraph, run, table row or cell that was built is dropped, and an incomplete last table row is still written.",
      ["inputs"],
      "for every document and every kind of block and inline in it, at every nesting",
      "The docx tests render a few fixtures and look for selected strings in the archive; a block kind, field or row count outside the fixtures is not noticed.",
      ["src/backends/docx/document.rs", "src/backends/docx/mod.rs", "src/graph/blocks.rs", "src/graph/lists.rs"],
      [("rendering", "src/backends/docx/mod.rs render_docx and the writer's add_* functions")],
      ["word/document.xml in the docx file"],
      "access-path coverage of the document type plus linear-use dataflow of the docx pieces, over MIR",
      "The docx library is taken to write what is added. Attributes and resource targets are not content here."),
    P("P24", "Line breaks inside a paragraph keep the words around them apart",
      "A line break inside running text always leaves white space (or a hard break) between the words before and after it in the document, whatever the next line starts with: "
      "a word, a span marker, a macro, a reference, a bracket, a list-like character. It is neither lost nor moved to a later place.",
      ["inputs", "histories"],
      "for every kind of token that can follow a line break in running text, in every parser state",
      "Tests continue a paragraph with a plain word or a span; the pending line break crosses tokens, so it has to be checked for every kind of token that can come next.",
      ["src/parser.rs", "src/graph/inlines.rs", "src/graph/macros.rs"],
      [("pending line break", "dangling newline state of the parser")],
      ["text of paragraphs in graph, JSON, HTML"],
      "typestate dataflow over MIR on the pending line break: it must be added before other text and may only be discarded where the paragraph ends",
      "Decided for every path of the parser that adds text or discards the pending break."),
    P("P25", "Docx styles and formatting end where their block or span ends",
      "In docx output bold, italic, monospace, highlight, sub- and superscript apply to exactly the text of their span, nested formatting adds to the surrounding one, and a paragraph style set for "
      "a block applies to that block only: what comes after a block or span is formatted as if it had not been there, and a section's content does not take its heading's style.",
      ["inputs", "histories"],
      "for every nesting of spans and sequence of blocks",
      "The writer keeps style and span state across blocks; the tests render documents with one styled construct and look at that construct, not at what follows it.",
      ["src/backends/docx/document.rs", "src/backends/docx/mod.rs", "src/backends/docx/styles.rs"],
      [("style state", "writer state set by set_style / reset_style and the span stack"), ("span formatting", "run construction from inlines")],
      ["run and paragraph properties in word/document.xml"],
      "balance (push/pop, set/reset) dataflow over MIR along every path of the writer, per kind of span and block",
      "Decides balance, distinctness and non-replacement of formatting; not the choice of font or color."),
    P("P26", "Docx output only refers to styles and numberings it defines",
      "Every paragraph style, based-on or next style, and list numbering that a generated docx document refers to is defined in that same document under exactly that id, "
      "different styles have different ids, and ordered lists number independently of each other.",
      ["inputs"],
      "for every combination of blocks in a document, hence every subset of styles that gets generated",
      "Word processors silently fall back to defaults for an undefined id, and the tests do not cross-check ids between the parts of the archive.",
      ["src/backends/docx/styles.rs", "src/backends/docx/numbering.rs", "src/backends/docx/document.rs", "src/backends/docx/mod.rs"],
      [("style ids", "src/backends/docx/styles.rs"), ("numbering ids", "src/backends/docx/numbering.rs and its users")],
      ["ids in word/document.xml, word/styles.xml and word/numbering.xml"],
      "symbolic evaluation of id expressions per style variant plus define-before-use dataflow over MIR",
      "Decides ids and definitions, not the look of a style."),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
                       "level": "other", "level_note": p["note"]} for p in PROPS if p["id"] not in na],
           "not_applicable": NOT_APPLICABLE,
           "notes": "All checks are static: a rustc driver (driver/) dumps the MIR of /repo's current tree, rules/ analyse it. "
                    "Nothing in /repo is executed. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
