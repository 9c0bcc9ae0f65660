"""Plugins of the simulated installation: visitors and template providers,
discovered through real entry points like any Mau plugin."""

from mau.environment.environment import Environment
from mau.nodes.document import DocumentNode
from mau.visitors.jinja_visitor import JinjaVisitor

ARGS = (
    "{% if args %} a={{ args|join('/') }}{% endif %}"
    "{% for k, v in kwargs.items() %} {{ k }}={{ v }}{% endfor %}"
    "{% if tags %} t={{ tags|join('/') }}{% endif %}"
    "{% if subtype %} s={{ subtype }}{% endif %}"
    "{% if classes %} c={{ classes|join('/') }}{% endif %}"
)
LABELS = "{% for k, v in labels.items() %}{( {{ k }}: {{ v }} )}{% endfor %}"
POS = "@{{ _context.source }}:{{ _context.start_line }}"

_T = {
    "document": "{{ content }}",
    "wrapper": "{{ content }}{{ absent }}",
    "value": "{{ value }}",
    "text": "{{ value }}",
    "word": "{{ value }}",
    "verbatim": "`{{ value }}`",
    "style": "<{{ style }}>{{ content }}</{{ style }}>",
    "label": "{{ content }}",
    "paragraph": "<p" + ARGS + " in={{ parent._type }}>{{ content }}</p>" + LABELS,
    "paragraph-line": "{{ content }}",
    "header": "<h{{ level }} id={{ internal_id }} n={{ name }}" + ARGS + ">{{ content }}</h>" + LABELS,
    "horizontal-rule": "<hr" + ARGS + ">" + LABELS,
    "macro": "<m {{ name }}" + ARGS + ">",
    "macro-class": "<span" + ARGS + ">{{ content }}</span>",
    "macro-link": "<a {{ target }}>{{ content }}</a>",
    "macro-unicode": "&#x{{ value }};",
    "macro-raw": "{{ value }}",
    "macro-image": "<img {{ uri }} {{ alt_text }} {{ width }} {{ height }}>",
    "macro-header": "<ref {{ target_name }}={{ header.internal_id }}>{{ content }}</ref>",
    "footnote": "<fn {{ public_id }}>{{ content }}</fn>",
    "macro-footnote": "<fnref {{ footnote.public_id }}/{{ footnote.internal_id }}>",
    "footnotes-item": "<fni {{ footnote.public_id }} {{ footnote.name }}>{{ footnote.content }}</fni>",
    "footnotes": "<fns" + ARGS + ">{{ footnotes }}</fns>" + LABELS,
    "toc-item": "<ti {{ header.internal_id }} {{ header.level }}>{{ header.content }}{{ entries }}</ti>",
    "toc": "<toc" + ARGS + ">{{ nested_entries }}#{{ plain_entries }}</toc>" + LABELS,
    "blockgroup-item": "<bgi {{ position }}>{{ block }}</bgi>",
    "blockgroup": "<bg {{ name }}>{% for k, v in items.items() %}{{ k }}={{ v }};{% endfor %}</bg>" + LABELS,
    "block": "<div" + ARGS + " " + POS + ">{{ content }}</div>" + LABELS,
    "include": "<inc {{ ctype }}" + ARGS + ">" + LABELS,
    "include-image": "<figure {{ uri }} {{ alt_text }}" + ARGS + ">" + LABELS,
    "include-mau": "<mau {{ uri }}" + ARGS + " " + POS + ">{{ content }}</mau>" + LABELS,
    "include-raw": "<raw {{ uri }}" + ARGS + ">{{ content }}</raw>" + LABELS,
    "list-item": "<li {{ level }}>{{ content }}</li>",
    "list": "<l o={{ ordered }} m={{ main_node }} s={{ start }}" + ARGS + ">{{ content }}</l>" + LABELS,
    "source-marker": "({{ value }})",
    "source-line": "{{ line_number }} {{ line_content }}{% if highlight_style %} !{{ highlight_style }}{% endif %}{{ marker }}",
    "source": "<code {{ language }}" + ARGS + ">\n{{ content }}</code>" + LABELS,
    "raw-line": "{{ value }}\n",
    "raw": "<rawb" + ARGS + ">{{ content }}</rawb>" + LABELS,
}


class SimHtml(JinjaVisitor):
    format_code = "sim_html"
    extension = ".html"
    default_templates = Environment.from_dict({f"{n}.html": t for n, t in _T.items()})


class SimTex(JinjaVisitor):
    """A second visitor: other delimiters, a preprocessor, another extension."""

    format_code = "sim_tex"
    extension = ".tex"
    templates_preprocess = str.strip
    jinja_environment_options = {"trim_blocks": True, "lstrip_blocks": True}
    default_templates = Environment.from_dict(
        {f"{n}.tex": "\\" + n.replace("-", "") + "(" + t + ")" for n, t in _T.items()}
    )


class Alpha:
    templates = {"paragraph.html": "<ALPHA>{{ content }}</ALPHA>", "header.pf_book.html": "<ALPHA-BOOK {{ level }}>{{ content }}"}


class Beta:
    templates = {"paragraph": {"html": "<BETA>{{ content }}</BETA>", "note": {"html": "<BETA-NOTE>{{ content }}"}}}


class Gamma:
    templates = Environment.from_dict(
        {"block.html": "<GAMMA" + ARGS + ">{{ content }}</GAMMA>", "text.pt_header.html": "[{{ value }}]"}
    ).asdict()


PROVIDERS = {"alpha": Alpha, "beta": Beta, "gamma": Gamma}


def header_id(header):
    return f"hid-{header.level}-{len(header.content)}"


def footnote_id(footnote):
    return f"fid-{footnote.name}"


class SimWrapper(DocumentNode):
    """A document wrapper chosen by the configuration."""
