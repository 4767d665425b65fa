B='templates/htmlbook/block.html.tera'; T='templates/htmlbook/tables.html.tera'; L='templates/htmlbook/leafblocks.html.tera'; I='templates/htmlbook/inline.html.tera'; M='templates/htmlbook/htmlbook.html.tera'
G='src/graph/blocks.rs'; N='src/graph/inlines.rs'; K='src/graph/lists.rs'; H='src/backends/htmls.rs'
CAP="""        {%- if block.caption %}
        <figcaption>{%- for inline in block.caption -%}
            {{- inline_macros::process_inline(inline=inline) -}}
            {%- endfor -%}</figcaption>
        {%- endif %}
"""
ATTR="""    {%- if block.metadata.attributes.attribution -%}
    <p data-type="attribution">"""
CELLS="""        {% for idx in range(start=body_start, end=num_cells) -%}
            {%- set cell = block.blocks | nth(n=idx) -%}
"""
CASES=[
# content
("principal or blocks","bug",[(B,"        {%- if block.blocks and block.name != \"section\" %}","        {%- if block.blocks and not block.principal and block.name != \"section\" %}")]),
("principal dropped when blocks","bug",[(B,"        {% elif block.principal -%}","        {% elif block.principal and not block.blocks -%}")]),
("item blocks not in dlist","bug",[(B,"        {%- if block.blocks and block.name != \"section\" %}","        {%- if block.blocks and not block.name in [\"section\", \"dlistItem\"] %}")]),
("title only of sections","bug",[(B,"        {%- if block.title -%}","        {%- if block.title and block.name == \"section\" -%}")]),
("section twice","bug",[(B,"        {%- if block.blocks and block.name != \"section\" %}","        {%- if block.blocks %}")]),
("first item lost","bug",[(B,"{% for item in block.items -%}","{% for item in block.items | slice(start=1) -%}")]),
("items reversed","bug",[(B,"{% for item in block.items -%}","{% for item in block.items | reverse -%}")]),
("term first only","bug",[(B,"<dt>{%- for inline in block.terms -%}\n            {{- inline_macros::process_inline(inline=inline) -}}\n        {%- endfor -%}</dt>","<dt>{{- inline_macros::process_inline(inline=block.terms | first) -}}</dt>")]),
("dlist items lost","bug",[(B,'{%- if block.name == "list" or block.name == "dlist" -%}','{%- if block.name == "list" -%}')]),
("last row lost","bug",[(T,"{% for idx in range(start=body_start, end=num_cells) -%}","{% for idx in range(start=body_start, end=num_cells - cols) -%}")]),
("header lost","bug",[(T,"range(start=0, end=body_start)","range(start=1, end=body_start)")]),
("body from 0","bug",[(T,"{% for idx in range(start=body_start, end=num_cells) -%}","{% for idx in range(start=0, end=num_cells) -%}")]),
("cells unrendered","bug",[(T,"            {%- if cell.inlines -%}\n            {%- for inline in cell.inlines -%}","            {%- if cell.inlines and tag == \"td\" -%}\n            {%- for inline in cell.inlines -%}")]),
("caption lost","bug",[(T,"    {%- if block.title %}\n    <caption>","    {%- if block.title and header %}\n    <caption>")]),
("pass skipped","bug",[(L,"    {% if block.inlines %}","    {% if block.inlines and tag %}")]),
("value only text","bug",[(I,"            {%- elif inline.value -%}","            {%- elif inline.value and inline.name == \"text\" -%}")]),
("span children only unconstrained","bug",[(I,"            {%- if inline.inlines -%}","            {%- if inline.inlines and inline.form != \"constrained\" -%}")]),
("xref text lost","bug",[(I,'{%- if inline.variant == "xref" or inline.variant == "link" -%}','{%- if inline.variant == "link" -%}')]),
("target lost","bug",[(I,'            {%- set target_attr = "src" -%}\n        {%- endif -%}\n        {%- set target = target_attr ~ \'="\' ~ ref ~ \'"\' -%}','            {%- set target_attr = "src" -%}\n        {%- endif -%}\n        {%- set target = target_attr ~ \'="\' ~ inline.variant ~ \'"\' -%}')]),
("doc title lost","bug",[(M,"{%- for inline in header.title %}","{%- for inline in header.title | slice(end=1) %}")]),
("doc blocks limited","bug",[(M,"<body>{% for block in blocks %}","<body>{% for block in blocks | slice(end=100) %}")]),
("serde skip principal","bug",[(K,"    pub principal: Vec<Inline>,","    #[serde(skip_serializing)]\n    pub principal: Vec<Inline>,")]),
("serde rename","bug",[(K,"    pub principal: Vec<Inline>,","    #[serde(rename = \"text\")]\n    pub principal: Vec<Inline>,")]),
("image nested lost","bug",[(B,'        {%- if block.name == "image" %}\n        <img','        {%- if block.name == "image" and not skip_tag %}\n        <img')]),
# refactorings
("for over slice","same",[(T,CELLS,"        {% for cell in block.blocks | slice(start=body_start) -%}\n            {%- set idx = loop.index0 + body_start -%}\n")]),
("caption macro","same",[(B,CAP,"        {{- self::caption(block=block) -}}\n"),(B,"{%- macro process_block(block, skip_tag) -%}","{%- macro caption(block) -%}\n"+CAP+"{%- endmacro caption -%}\n{%- macro process_block(block, skip_tag) -%}")]),
("inlines macro","same",[(L,"    {%- for inline in block.inlines -%}\n    {{- inline_macros::process_inline(inline=inline) -}}\n    {%- endfor -%}","    {{- inline_macros::process_inlines(inlines=block.inlines) -}}"),(I,"{%- macro process_inline(inline) -%}","{%- macro process_inlines(inlines) -%}\n{%- for inline in inlines -%}{{- self::process_inline(inline=inline) -}}{%- endfor -%}\n{%- endmacro process_inlines -%}\n{%- macro process_inline(inline) -%}")]),
("no if around for","same",[(B,"        {% if block.inlines %}\n        {%- for inline in block.inlines -%}\n        {{- inline_macros::process_inline(inline=inline) -}}\n        {%- endfor -%}\n        {%- endif -%}","        {%- for inline in block.inlines | default(value=[]) -%}\n        {{- inline_macros::process_inline(inline=inline) -}}\n        {%- endfor -%}")]),
("rename loop var","same",[(B,"{% for item in block.items -%}\n        {{ self::process_block(block=item, skip_tag=local_skip_tag) }}","{% for entry in block.items -%}\n        {{ self::process_block(block=entry, skip_tag=local_skip_tag) }}")]),
("tag by elif chain","same",[(L,"    {% elif block.name == \"literal\" -%}\n        {%- set tag = \"pre\" -%}\n    {% elif block.name == \"pass\" -%}\n    {%- endif -%}","    {% elif block.name != \"pass\" -%}\n        {%- set tag = \"pre\" -%}\n    {%- endif -%}")]),
("section early","same",[(B,'{%- if block.name == "list" or block.name == "dlist" -%}','{%- if block.items -%}')]),
("new div attr","same",[(B,'    {%- set tag = "blockquote" -%}','    {%- set tag = "blockquote" -%}\n    {%- set data_type = "quote" -%}')]),
("inline template in code","same",[(H,"BLOCKS_TEMPLATE","BLOCK_MACROS")]),
("data-type literal","same",[(I,'            {%- set inline_tag = "span" -%}\n            {%- set data_type = "footnote" -%}','            {%- set data_type = "footnote" -%}\n            {%- set inline_tag = "span" -%}')]),
("in list","same",[(I,'{%- if inline.variant == "xref" or inline.variant == "link" -%}','{%- if inline.variant in ["xref", "link"] -%}')]),
]
