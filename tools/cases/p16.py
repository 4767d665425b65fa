B='templates/htmlbook/block.html.tera'; T='templates/htmlbook/tables.html.tera'; L='templates/htmlbook/leafblocks.html.tera'; I='templates/htmlbook/inline.html.tera'; M='templates/htmlbook/htmlbook.html.tera'
G='src/graph/blocks.rs'
CASES=[
("end tag condition","bug",[(B,"{%- if tag and not omit_tag -%}</{{tag}}>","{%- if tag and not skip_tag -%}</{{tag}}>")]),
("inline end tag","bug",[(I,"    {%- if inline_tag -%}</{{inline_tag}}>{%- endif -%}","    {%- if inline_tag and inline.inlines -%}</{{inline_tag}}>{%- endif -%}")]),
("section early end","bug",[(B,"    {%- endfor -%}\n    {%- endif -%}\n</section>","    {%- endfor -%}\n</section>\n    {%- endif -%}\n")]),
("heading end","bug",[(B,"</h{{title_heading_level}}>","</h1>")]),
("dt outside if","bug",[(B,"        {%- if block.terms %}\n        <dt>","        <dt>{%- if block.terms %}")]),
("tbody always","bug",[(T,"    {%- if header %}\n    </tbody>{%- endif %}","    </tbody>")]),
("row end lost","bug",[(T,"        </tr>\n        <tr>{%- endif %}","        <tr>{%- endif %}")]),
("tr after","bug",[(T,"{% endfor %}</tr>","{% endfor %}")]),
("cell end tag","bug",[(T,"            </{{tag}}>","            </td>")]),
("hr in wrong","bug",[(B,"    <hr />","    <hr>x</hr>")]),
("unknown tag","bug",[(I,'{%- set inline_tag = "em" -%}','{%- set inline_tag = "emphasis" -%}')]),
("mark variant falls to else","bug",[(I,'        {%- elif inline.variant == "superscript" -%}\n            {%- set inline_tag = "sup" -%}\n','')]),
("attribute quote","bug",[(B,'data-type="{{ data_type }}"{%- endif -%}>','data-type="{{ data_type }}{%- endif -%}>')]),
("attr no quote","bug",[(L,'data-code-language="{{ code_language }}"','data-code-language={{ code_language }}')]),
("li without list","bug",[(B,'{%- elif block.variant == "unordered" -%}\n    {%- set tag = "ul" -%}','{%- elif block.variant == "unordered" and not skip_tag -%}\n    {%- set tag = "ul" -%}')]),
("default lost","bug",[(T,' | default(value="1") | int(default=1)',' | int(default=1)')]),
("cols zero","bug",[(T,"{%- if cols < 1 -%}","{%- if cols < 0 -%}")]),
("options guard","same",[(T,'{%- if block.metadata.options and "header"','{%- if block.metadata and "header"')]),
("print undefined","bug",[(B,'        {%- if block.metadata.attributes.citation -%}, {{block','        , {{block'),(B,'citation}}\n        {%- endif -%}','citation}}')]),
("roles join unguarded","same",[(I,'    {%- if inline.metadata.roles %} class="','    {%- if inline.metadata %} class="')]),
("level compare","bug",[(B,'{%- if block.name in ["example", "sidebar"]-%}','{%- if block.level > 2 -%}')]),
("missing macro arg","bug",[(M,'process_block(block=block,skip_tag=false)','process_block(block=block)')]),
("missing macro","bug",[(L,'inline_macros::process_inline(inline=inline)','inline_macros::process_inlines(inline=inline)')]),
("set from undefined","bug",[(B,'        {%- if block.metadata.attributes.id -%}\n        {%- set id = block.metadata.attributes.id -%}\n        {%- endif -%}','        {%- set id = block.metadata.attributes.id -%}')]),
("verse dropped","bug",[(B,'["paragraph", "listing", "verse", "pass", "literal"]','["paragraph", "listing", "pass", "literal"]')]),
("a in a","same",[(I,'{%- set inline_tag = "a" -%}','{%- set inline_tag = "a" -%}{# links #}')]),
("mark element","same",[(I,'{%- elif inline.variant == "mark" -%}\n            {%- set inline_tag = "span" -%}','{%- elif inline.variant == "mark" -%}\n            {%- set inline_tag = "mark" -%}')]),
("tr in thead","same",[(T,'    <thead>\n','    <thead><tr>\n'),(T,'{% endfor %}</thead>','{% endfor %}</tr></thead>')]),
("tbody everywhere","same",[(T,'        {%- else -%}\n        <tr>\n','        {%- else -%}\n    <tbody>\n        <tr>\n'),(T,"    {%- if header %}\n    </tbody>{%- endif %}","    </tbody>")]),
("guards nested","same",[(T,'{%- if block.metadata.options and "header" in block.metadata.options -%}','{%- if block.metadata.options -%}{%- if "header" in block.metadata.options -%}'),(T,"{%- set body_start = cols -%}\n{%- endif -%}","{%- set body_start = cols -%}\n{%- endif -%}{%- endif -%}")]),
("options default","same",[(T,'{%- if block.metadata.options and "header" in block.metadata.options -%}','{%- set options = block.metadata.options | default(value=[]) -%}{%- if "header" in options -%}')]),
("cols or","same",[(T,"{%- if cols < 1 -%}","{%- if cols <= 0 -%}")]),
("skip passed","same",[(M,'process_block(block=block,skip_tag=false)','process_block(skip_tag=false, block=block)')]),
("default param","same",[(B,"macro process_block(block, skip_tag)","macro process_block(block, skip_tag=false)"),(M,'process_block(block=block,skip_tag=false)','process_block(block=block)')]),
("img tag alone","same",[(I,'{%- set self_close = True -%}','{%- set self_close = true -%}')]),
("safe filter","same",[(I,'{{- inline.value -}}','{{- inline.value | safe -}}')]),
("trim text","same",[(B,'{{block.target}}','{{ block.target }}')]),
]
