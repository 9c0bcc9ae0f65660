"""Random Mau projects that use the whole language.

The name pools are deliberately tiny, so that documents compiled together
collide on header names, footnotes, groups, variables, aliases and files: a
value that leaks from one place to another is then visible in the output.
Most projects are valid; a share of them contains exactly one error.
"""

WORDS = (
    "alpha beta gamma delta mau page text rain tree 12 x1 end. (so) wow! a-b "
    "caffè naïve día 日本 {{lit}} \\{esc\\} \\_u\\_ 50% \"q\" semi; q? A_B".split()
)
SAFE = "alpha beta gamma delta mau page text rain tree end so wow".split()
HEADERS = ["intro", "setup", "usage"]
NOTES = ["n1", "n2", "n3"]
GROUPS = ["g1", "g2"]
VARS = ["v1", "v2", "ns.v3", "v4"]
VALUES = ["1", "two", "on", "three words", "a=b"]
ROLES = ["", "role", "cite", "x-y"]
TAGS = ["t1", "t2"]
SUBTYPES = ["note", "quote"]
CODE = ["def f(x):", "    return {x}  # `a`", "x = 1:1:", "y = 2:@:", "z:@+:", "w:@hot:", "", "a::b", "end:"]


class Gen:
    def __init__(self, rng, *, errors=0.15, includes=True, depth=2, prefix="", size=None, incl=0.0, debug=0.06, excl=0.0):
        self.r = rng
        self.excl = excl
        self.debug = debug
        self.incl = incl
        self.files = {}
        self.prefix = prefix
        self.depth = depth
        self.includes = includes
        self.errors = errors
        self.size = size or rng.choice([3, 5, 8, 12])
        self.planned_error = None
        self.counter = 0
        self.uses = set()

    # -- helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return self.r.choice(seq)

    def plain(self, n=3):
        return " ".join(self.pick(SAFE) for _ in range(self.r.randint(1, n)))

    # -- text
    def inline(self, scope, depth=0):
        r = self.r
        k = r.random()
        if k < 0.40:
            return self.pick(WORDS)
        if k < 0.52:
            d = self.pick("*_~^")
            return f"{d}{self.inline(scope, depth + 1) if depth < 2 else self.plain(1)}{d}"
        if k < 0.57:
            return "`" + self.pick(["code", "{raw}", "*no*", "a b"]) + "`"
        if k < 0.60:
            return self.pick(["$_no_$", "%*x* {{y}}%", "\\*z\\*"])
        if k < 0.70 and scope["vars"]:
            return "{" + self.pick(sorted(scope["vars"])) + "}"
        if k < 0.75:
            return "[link](http://x.y/" + self.pick(["a", "b?c"]) + self.pick(['', ', "' + self.plain() + '"', ', "_x_ y"']) + ")"
        if k < 0.77:
            return "[mailto](a@b.c" + self.pick(["", ', "me"']) + ")"
        if k < 0.80:
            return f'[class]("{self.plain()}", c1, c2)'
        if k < 0.82:
            return "[unicode](1F600)"
        if k < 0.84:
            return '[raw]("<b>")'
        if k < 0.86:
            return f'[image](pic.png, "{self.plain()}", 10, 20)'
        if k < 0.90:
            name = self.pick(HEADERS)
            scope["links"].add(name)
            return f"[header]({name}" + self.pick(["", ', "see *it*"']) + ")"
        if k < 0.95:
            name = scope["pool"] + self.pick(NOTES)
            scope["notes"].add(name)
            return f"[footnote]({name})"
        if scope["vars"]:
            v = self.pick(sorted(scope["vars"]))
            val = self.pick(VALUES[:3])
            op = self.pick(["==", "!="])
            if self.p(0.3):
                return f"[ifeval:{v}{op}{val}]({v}, {self.pick(sorted(scope['vars']))})"
            return f'[if:{v}{op}{val}]("yes {self.plain(1)}", "no *b*")'
        return "[gen](a, b=c)" if self.p(0.3) else self.pick(WORDS)

    def line(self, scope, n=6):
        return " ".join(self.inline(scope) for _ in range(self.r.randint(1, n)))

    # -- decorations
    def args(self, scope, extra=()):
        r = self.r
        parts = []
        if self.p(0.3):
            parts.append(self.pick(["one", '"two, 3"', "x y"]))
        for t in TAGS:
            if self.p(0.2):
                # Tags and subtypes can have the same names.
                parts.append("#" + (t if self.p(0.85) else "note"))
        if self.p(self.debug):
            parts.append(self.pick(["#mau:debug", "#mau:debug", "#mau:quiet"]))
        if self.p(0.25):
            parts.append("*" + self.pick(SUBTYPES))
        if scope["aliases"] and self.p(0.15):
            parts.append("@" + self.pick(scope["aliases"]))
        named = []
        if parts and parts[-1] == "@warn" and self.p(0.3):
            named.append("who=" + self.pick(["me", "you"]))
        if self.p(0.3):
            named.append("key=" + self.pick(["val", '"a b, c"', "v_1"]))
        if self.p(0.15) and scope["vars"]:
            named.append("kv={" + self.pick(sorted(v for v in scope["vars"])) + "}")
        if self.p(0.1):
            named.append("zz=9")
        named.extend(extra)
        r.shuffle(parts)
        return parts, named

    def decorate(self, scope, extra=(), force=False, skip_cond=False):
        """Lines before an element: arguments, labels, condition."""
        out = []
        excluded = False
        if force or extra or self.p(0.45):
            parts, named = self.args(scope, extra)
            if parts or named:
                out.append("[" + ", ".join(parts + named) + "]")
        if self.p(0.25):
            for role in self.r.sample(ROLES, self.r.randint(1, 2)):
                out.append(f".{role} {self.line(scope, 3)}")
        if not skip_cond and scope["vars"] and self.p(0.15):
            v = self.pick(sorted(scope["vars"]))
            known = scope["vars"][v]
            if known is None or self.p(0.3):
                cond = self.pick(VALUES[:3])
                excluded = None
            else:
                cond = known
            out.append(f"@if {v}{self.pick(['==', ' == '])}{cond}" if self.p(0.8) else f"@if {v} != {cond}")
        self.r.shuffle(out)
        if out and self.p(0.1):
            out.append("")
        return out

    # -- elements
    def variable(self, scope):
        name = self.pick(VARS)
        k = self.r.random()
        if k < 0.15:
            scope["vars"][name] = "true"
            return [f":+{name}:"]
        if k < 0.25:
            scope["vars"][name] = "false"
            return [f":-{name}:"]
        if k < 0.4 and scope["vars"]:
            other = self.pick(sorted(scope["vars"]))
            scope["vars"][name] = None
            return [f":{name}:{{{other}}}-{self.pick(VALUES[:3])}"]
        value = self.pick(VALUES)
        scope["vars"][name] = value
        return [f":{name}:{value}"]

    def paragraph(self, scope):
        out = self.decorate(scope)
        for _ in range(self.r.randint(1, 3)):
            out.append("Par " + self.line(scope))
        return out

    def header(self, scope, name=None):
        extra = []
        if name:
            extra.append(f"name={name}")
        elif self.p(0.15):
            extra.append("internal_id=" + self.pick(["id1", "id2"]))
        out = self.decorate(scope, extra, skip_cond=bool(name))
        out.append("=" * self.r.choice([1, 1, 2, 2, 3, 4]) + " " + self.pick([self.plain(), self.line(scope, 3)]))
        return out

    def rule(self, scope):
        return self.decorate(scope) + ["---"]

    def list(self, scope):
        ordered = self.p(0.5)
        c = "#" if ordered else "*"
        extra = []
        if ordered and self.p(0.5):
            extra.append("start=" + self.pick(["auto", "auto", "4"]))
        out = self.decorate(scope, extra)
        level = 1
        for i in range(self.r.randint(1, 5)):
            if i and self.p(0.3):
                level += 1
                if self.p(0.3):
                    c = "#" if c == "*" else "*"
            elif level > 1 and self.p(0.4):
                level -= 1
            out.append(c * level + " " + self.line(scope, 4))
        return out

    def block(self, scope, depth, extra=(), delim=None, skip_cond=False):
        extra = list(extra)
        kind = self.r.random()
        if any(e.startswith("footnote") for e in extra):
            kind = 0.0
        delims = scope["delims"]
        delim = delims[depth % len(delims)]
        if kind < 0.55:
            if self.p(0.25):
                extra.append("isolate=false")
            if self.p(0.2):
                extra.append('classes="k1,k2"')
            out = self.decorate(scope, extra, skip_cond=skip_cond)
            out.append(delim)
            if self.p(0.93):
                inner = self.scope(scope["vars"], aliases=scope["aliases"], keep=True, delims=delims,
                                   pool=f"d{depth}" if "isolate=false" in extra else "")  # fmt: skip
                body = self.body(inner, depth + 1, self.r.randint(1, 3))
                out.extend(body)
            out.append(delim)
            return out
        if kind < 0.75:
            extra.append("engine=raw")
            out = self.decorate(scope, extra, skip_cond=skip_cond)
            out += [delim, *[self.pick(CODE) for _ in range(self.r.randint(1, 3))], delim]
            return out
        if self.p(0.5):
            extra = ["engine=source", "language=" + self.pick(["py", "c"]), *extra]
            out = self.decorate(scope, extra, skip_cond=skip_cond)
        else:
            out = self.decorate(dict(scope, aliases=[]), skip_cond=skip_cond)
            out = [line for line in out if not line.startswith("[")]
            out.append("[" + ", ".join(["@source", self.pick(["", "", "", "language="]) + self.pick(["py", "c"]), *extra]) + "]")
        out += [delim, *[self.pick(CODE) for _ in range(self.r.randint(1, 5))], delim]
        return out

    def include(self, scope, depth, only=None):
        r = self.r
        k = r.random() if only is None else only
        if k < 0.12:
            return self.decorate(scope) + ["<< toc"]
        if k < 0.24:
            return self.decorate(scope) + ["<< footnotes"]
        if k < 0.36:
            out = [x for x in self.decorate(scope) if not x.startswith("[")]
            return out + ["<< image:pic.png, \"alt\"" + self.pick(["", ", classes=\"a,b\"", ", #t1"])]
        if k < 0.42:
            return self.decorate(scope) + ["<< custom"]
        if not self.includes:
            return self.paragraph(scope)
        if k < 0.60:
            name = self.raw_file()
            return [x for x in self.decorate(scope) if not x.startswith("[")] + [f"<< raw:{name}"]
        shared = [f for f in self.files if f.endswith(".mau")]
        if shared and self.p(0.35):
            name = self.pick(shared)
        elif depth >= self.depth or len(self.files) > 6:
            name = self.raw_file()
            return [x for x in self.decorate(scope) if not x.startswith("[")] + [f"<< raw:{name}"]
        else:
            name = self.mau_file(depth)
        extra = []
        if self.p(0.3):
            extra.append("call:" + self.pick(VARS) + "=" + self.pick(VALUES[:3]))
        if self.p(0.2):
            extra.append("pass_environment=false")
        if self.p(0.2):
            extra.append("#t1")
            extra.sort(key=lambda e: "=" in e)
        deco = [x for x in self.decorate(scope) if not x.startswith("[")]
        if self.p(0.2):
            pos = [e for e in extra if "=" not in e]
            named = [e for e in extra if "=" in e]
            return deco + ["[" + ", ".join([name, *pos, *named]) + "]", "<< mau"]
        return deco + ["<< mau:" + ", ".join([name, *extra])]

    def raw_file(self):
        old = [f for f in self.files if f.endswith(".txt")]
        if old and self.p(0.4):
            return self.pick(old)
        self.counter += 1
        name = f"{self.prefix}{self.pick(['', 'sub/'])}r{self.counter}.txt"
        n = self.r.randint(0, 4)
        text = "\n".join(self.pick(CODE + ["plain", "<< mau:nope", "é ü"]) for _ in range(n))
        if self.p(0.5) and text:
            text += "\n"
        if self.p(0.05):
            text = "long line " * 1200
        self.files[name] = text
        return name

    def mau_file(self, depth):
        self.counter += 1
        name = f"{self.prefix}{self.pick(['', '', 'sub/'])}i{self.counter}.mau"
        scope = self.scope({})
        body = self.body(scope, depth + 1, self.r.randint(1, 4))
        self.files[name] = "\n".join(body) + self.pick(["\n", "", "\n\n"])
        return name

    def scope(self, variables, aliases=(), keep=False, delims=None, pool=""):
        if delims is None:
            delims = self.r.sample(["----", "####", "++++", "@@@@", "%%%%"], 5)
        return {
            "vars": variables if keep else dict(variables),
            "links": set(),
            "notes": set(),
            "groups": set(),
            "pool": pool,
            "aliases": list(aliases),
            "delims": delims,
        }

    def excluded(self, scope, depth):
        """An element with a false condition; whatever it mentions may not exist."""
        inside = {**scope, "links": set(), "notes": set()}
        sure = {**inside, "vars": {"x9": "on"}}
        k = self.r.random()
        bad = self.p(0.5)
        if k < 0.15:
            el = ["Gone " + self.line(inside) for _ in range(self.r.randint(1, 3))]
            if bad:
                el.append(self.pick(["{nope}", "[footnote](nope)", "[header](nope)", "*x [", '[if:nope==1]("a")', "[class]("]))
        elif k < 0.27:
            el = [self.pick(["", "[name=intro]", "[name=usage, internal_id=id1]"]), "=" * self.r.randint(1, 3) + " " + self.line(inside, 3)]
        elif k < 0.32:
            el = ["---"]
        elif k < 0.47:
            c = self.pick("*#")
            el = [self.pick(["", "[start=7]", "[start=auto]", "[start=x]"]), c + " " + self.line(inside, 3)]
            el += [c * self.r.randint(1, 2) + " " + self.line(inside, 3) for _ in range(self.r.randint(0, 4))]
        elif k < 0.72:
            d = scope["delims"][depth % 5]
            el = [self.pick(["", "[footnote=n1]", "[footnote=n2]", "[group=g1, position=p0]", "[group=g1, position=p2]", "[isolate=false]", "[engine=raw]", "[engine=source, language=py]", "[@source, py]", "[engine=nope]"]), d]
            el += [self.pick([*CODE, "{nope}", "= Title", "<< mau:absent.mau", ":v1:EVIL", ":ns.v3:EVIL", "[name=intro]", "# a", "* b", "[footnote](nope)", "<< toc", "@if nope==1", "// c"]) for _ in range(self.r.randint(0, 5))]
            el.append(d)
        else:
            el = ["<< " + self.pick([
                "mau:absent.mau", "raw:absent.txt", "mau:main.mau", "raw:bad.bin", "mau:bad.bin", "toc", "footnotes", "custom", "image:p.png, alt", "image", "raw",
                "blockgroup:nope", "mau:i1.mau", "mau:i1.mau, call:v1=9", "raw:r1.txt", "mau:sub/i2.mau, pass_environment=false",
            ])]  # fmt: skip
        head = [x for x in (el[0],) if x.startswith("[")]
        if head or el[0] == "":
            el = el[1:]
        elif not el[0].startswith("<<") and self.p(0.3):
            parts, named = self.args(sure)
            if parts or named:
                head = ["[" + ", ".join(parts + named) + "]"]
        if self.p(0.35):
            head += [f".{self.pick(ROLES)} {self.line(sure, 3)}" for _ in range(self.r.randint(1, 2))]
        head.append(self.pick(["@if x9==off", "@if x9 == off", "@if x9!=on", "@if x9 != on"]))
        self.r.shuffle(head)
        return head + el

    def body(self, scope, depth, n):
        out = []
        defined_groups = set()
        for _ in range(n):
            if self.excl and self.p(self.excl):
                # Other variables may be undefined: their definition may be excluded.
                out += [":x9:on", ""]
                out += [MARK + line for line in self.excluded(scope, depth)] + [""]
            k = self.r.random()
            if self.incl and self.p(self.incl):
                el = self.include(scope, depth, self.pick([0.5, 0.8, 0.8, 0.8]))
            elif k < 0.16:
                el = self.variable(scope)
            elif k < 0.40:
                el = self.paragraph(scope)
            elif k < 0.50:
                el = self.header(scope)
            elif k < 0.54:
                el = self.rule(scope)
            elif k < 0.66:
                el = self.list(scope)
            elif k < 0.80 and depth < self.depth + 1:
                if self.p(0.2):
                    g = self.pick(GROUPS)
                    pos = f"p{len(out)}"
                    defined_groups.add(g)
                    el = self.block(scope, depth, [f"group={g}", f"position={pos}"], skip_cond=True)
                else:
                    el = self.block(scope, depth)
            elif k < 0.84:
                el = self.pick([["// comment"], ["////", "gone {x}", "= no", "////"]])
            else:
                el = self.include(scope, depth)
            out += el + [""]
        # Whatever was mentioned must be defined exactly once.
        tail = []
        names = sorted(scope["links"])
        seen = set()
        guard = 0
        while (scope["links"] | scope["notes"]) - seen and guard < 12:
            guard += 1
            for name in sorted(scope["links"]):
                if name in seen:
                    continue
                seen.add(name)
                tail.append([f"[name={name}]", "== " + self.plain(), ""])
            for name in sorted(scope["notes"]):
                if name in seen:
                    continue
                seen.add(name)
                d = scope["delims"][depth % 5]
                text = ["Note " + self.plain()]
                if self.p(0.25) and depth < self.depth + 1:
                    inner = self.scope(scope["vars"], aliases=scope["aliases"], delims=scope["delims"])
                    text = self.body(inner, depth + 1, self.r.randint(1, 2))
                tail.append([f"[footnote={name}]", d, *text, d, ""])
        self.r.shuffle(tail)
        for t in tail:
            if self.p(0.4):
                out = t + out
            else:
                out += t
        for g in sorted(defined_groups):
            if self.p(0.8):
                el = self.decorate(scope, skip_cond=True)
                el = [x for x in el if not x.startswith("[")]
                # labels could mention names: keep them plain
                el = [x for x in el if "[header]" not in x and "[footnote]" not in x]
                out += el + [f"<< blockgroup:{g}", ""]
        return out


# What marks the lines of excluded elements until the text is put together.
MARK = "\x01"


def without(text):
    """The same text with blank lines in place of the excluded elements."""
    return "\n".join("" if line.startswith(MARK) else line for line in text.split("\n"))


def unmarked(text):
    return text.replace(MARK, "")


ERRORS = [
    "undefined-variable", "undefined-footnote", "undefined-header", "duplicate-header",
    "duplicate-footnote", "unclosed-block", "unclosed-comment", "bad-engine", "bad-alias",
    "no-value", "bad-group", "unknown-condition", "bad-operator", "missing-file",
    "args-after-named", "taken-position", "both-arguments", "no-uri", "bad-list", "two-subtypes",
    "self-include", "undecodable-file",
]  # fmt: skip


def error_lines(kind, rng, main):
    return {
        "undefined-variable": ["Text {nope} here"],
        "undefined-footnote": ["Text [footnote](nope)"],
        "undefined-header": ["Text [header](nope)"],
        "duplicate-header": ["[name=dup]", "= One", "", "[name=dup]", "= Two"],
        "duplicate-footnote": ["[footnote=dup]", "----", "a", "----", "", "[footnote=dup]", "----", "b", "----"],
        "unclosed-block": ["&&&&", "never closed"],
        "unclosed-comment": ["////", "never closed"],
        "bad-engine": ["[engine=nope]", "----", "x", "----"],
        "bad-alias": ["[@nope]", "Text"],
        "no-value": [":nothing:"],
        "bad-group": ["<< blockgroup:nope"],
        "unknown-condition": ["@if nope==1", "Text"],
        "bad-operator": ["@unless a==1", "Text"],
        "missing-file": [rng.choice(["<< mau:absent.mau", "<< raw:absent.txt", "<< raw:sub"])],
        "args-after-named": ["[a=1, b]", "Text"],
        "taken-position": ["[group=gg, position=p]", "----", "a", "----", "", "[group=gg, position=p]", "----", "b", "----"],
        "both-arguments": ["[a]", "<< image:b.png"],
        "no-uri": ["<< image"],
        "bad-list": ["* item", "text"],
        "two-subtypes": ["[*a, *b]", "Text"],
        "undecodable-file": [rng.choice(["<< mau:bad.bin", "<< raw:bad.bin"])],
        "self-include": [f"<< mau:{main}"],
    }[kind]


ALIASES = {
    "warn": {"subtype": "note", "args": {"k1": "v1", "k2": "v2", "k3": "v3"}, "names": ["who"]},
    "src": {"args": {"engine": "source", "zz": "1"}, "names": ["language"]},
    "mini": {"subtype": "quote"},
}


def config(rng, *, visitors=True):
    """A random configuration mapping, and the aliases it defines."""
    cfg = {}
    aliases = []
    if rng.random() < 0.4:
        chosen = rng.sample(sorted(ALIASES), rng.randint(1, 3))
        cfg.setdefault("parser", {})["aliases"] = {
            "source": {"args": {"engine": "source"}, "names": ["language"]},
            **{a: ALIASES[a] for a in chosen},
        }
        aliases = [a for a in chosen if a != "src"]
    if rng.random() < 0.3:
        cfg.setdefault("parser", {})["source_highlight_style_aliases"] = {"+": "plus", "hot": "warm"}
    if rng.random() < 0.15:
        cfg.setdefault("parser", {})["header_internal_id_function"] = {"$obj": "header_id"}
    if rng.random() < 0.15:
        cfg.setdefault("parser", {})["footnote_unique_id_function"] = {"$obj": "footnote_id"}
    if rng.random() < 0.08:
        cfg.setdefault("parser", {})["document_wrapper"] = {"$obj": "SimWrapper"}
    files = {}
    if visitors and rng.random() < 0.6:
        t = cfg.setdefault("visitor", {}).setdefault("templates", {})
        if rng.random() < 0.5:
            t["providers"] = rng.sample(["alpha", "beta", "gamma"], rng.randint(1, 3))
        if rng.random() < 0.5:
            t["paths"] = rng.sample(["tpl", "tpl2"], rng.randint(1, 2))
            for d in t["paths"]:
                files.update(template_files(rng, d))
        if rng.random() < 0.4:
            t["prefixes"] = rng.sample(["book", "blog"], rng.randint(1, 2))
        if rng.random() < 0.5:
            t["custom"] = {
                "paragraph.html": "<CUSTOM {{ config.mau.site }}>{{ content }}",
                "header.note.html": "<CN {{ labels|length }}>{{ content }}",
                "block": {"tg_t1": {"html": "<TAGGED>{{ content }}"}},
            }
    if rng.random() < 0.5:
        cfg["site"] = rng.choice(["S1", "S2"])
    return cfg, aliases, files


def layout(rng, name):
    """The same template elsewhere: any dot but the last may be a directory."""
    *parts, ext = name.replace("/", ".").split(".")
    out = parts[0]
    for part in parts[1:]:
        out += rng.choice("./") + part
    return f"{out}.{ext}"


def template_files(rng, d):
    out = {}
    names = [
        "paragraph.html", "paragraph.note.html", "header.html", "header.pf_book.html",
        "block.tg_t1.html", "text.pt_paragraph.html", "style.star.html", "list.html",
        "paragraph.tex", "include-mau.html", "macro-link.html", "paragraph/note.pf_blog.html",
        "block/quote.html", "style/style__underscore.html", "README.md",
        "block.tg_t2.html", "paragraph.tg_t1.html", "paragraph.tg_t2.html", "paragraph.note.tg_t1.html",
    ]  # fmt: skip
    names = rng.sample(names, rng.randint(1, 6))
    if rng.random() < 0.3:
        names = [layout(rng, n) for n in names]
    for name in names:
        body = "{{ name }}" if name.startswith("macro") else "{{ value }}" if name.startswith("text") else "{{ content }}"
        out[f"{d}/{name}"] = f"<{d}:{name.replace('/', '.')}>{body}\n"
    return out


def project(rng, *, prefix="", errors=0.15, size=None, depth=None, includes=True, visitors=True, main=None, incl=0.0, debug=0.06, excl=0.0):
    """{"files", "main", "config", "vars", "error"}"""
    cfg, aliases, files = config(rng, visitors=visitors)
    g = Gen(rng, prefix=prefix, size=size, depth=depth if depth is not None else rng.choice([1, 2, 3]), includes=includes, incl=incl, debug=debug, excl=excl)
    variables = {}
    for v in VARS[:2]:
        if rng.random() < 0.4:
            variables[v] = rng.choice(VALUES[:3])
    scope = g.scope(variables, aliases=aliases)
    body = g.body(scope, 0, g.size)
    main = main or f"{prefix}main.mau"
    error = None
    if rng.random() < errors:
        error = rng.choice(ERRORS)
        lines = error_lines(error, rng, main)
        if error == "undecodable-file":
            g.files["bad.bin"] = rng.choice(["\udcff\n", "text\n" * 3 + "\udcc3", "a" * 9000 + "\udcfe\n"])
        targets = [main] + [f for f in g.files if f.endswith(".mau")]
        where = rng.choice(targets)
        if error in ("self-include",):
            where = main
        if where == main:
            # between two elements
            cuts = [i for i in range(len(body) + 1) if i == 0 or body[i - 1] == ""]
            at = rng.choice(cuts)
            body = body[:at] + lines + [""] + body[at:]
        else:
            g.files[where] = g.files[where].rstrip("\n") + "\n\n" + "\n".join(lines) + "\n"
    text = "\n".join(body) + rng.choice(["", "\n"])
    if not text.strip():
        text = "Par nothing\n"
    files = {**files, **g.files, main: text}
    return {"files": files, "main": main, "config": cfg, "vars": variables, "error": error}
