"""MiniMau: a subset of the language with an executable reference model.

Projects are abstract syntax trees. `render` writes them as Mau source;
`Model.run` interprets the same trees and predicts which files are read, in
which order, with which variables, what the document contains, which include
calls are listed, where a run stops and what is in the caller's environment
at each moment. The model shares no code with Mau.

An element is a dictionary:
  k      par | head | list | rule | def | mau | raw | block | rawblock | group | com
  pre    decorations in order: ["if", var, op, value] ["label", role, id, refs] ["args", text]
  id     marker number of its text;  refs: variables mentioned by the text
"""

import posixpath


class Stop(Exception):
    """The run ends with a Mau error here."""

    def __init__(self, kind, source, line, uri=None, span=1):
        super().__init__(kind, source, line, uri)
        self.kind = kind
        self.source = source
        self.line = line
        self.uri = uri
        self.span = span


class Unknown(Exception):
    """A text was delivered that is not the rendering of any known tree."""


class TooBig(Exception):
    pass


# -- rendering -----------------------------------------------------------------


def text_of(el):
    return el.get("lead", "") + f"Mk{el['id']}=" + "".join("{" + r + "}," for r in el.get("refs", ())) + ";"


def quoted(value):
    return f'"{value}"' if " " in value or "," in value else value


def directive(el):
    """The lines of an element without its decorations."""
    k = el["k"]
    if k == "par":
        return [text_of(el)] + [f"Mk{i}=;" for i in el.get("more", ())]
    if k == "head":
        return ["=" * el.get("level", 1) + " " + text_of(el)]
    if k == "list":
        return [("#" if el.get("ordered") else "*") + " " + text_of(el)] + [f"* Mk{i}=;" if not el.get("ordered") else f"# Mk{i}=;" for i in el.get("more", ())]
    if k == "rule":
        return ["---"]
    if k == "com":
        return ["// " + text_of(el)] if el.get("short") else ["////", "{nope} << mau:nope.mau", text_of(el), "////"]
    if k == "def":
        if el.get("flag"):
            return [f":{el['flag']}{el['name']}:"]
        return [f":{el['name']}:{el['val']}" + "".join("{" + r + "}" for r in el.get("refs", ()))]
    if k in ("mau", "raw"):
        parts = list(el.get("tags", ()))
        for name, val, refs in el.get("call", ()):
            parts.append(f"call:{name}=" + quoted(val + "".join("{" + r + "}" for r in refs)))
        if not el.get("pe", True):
            parts.append("pass_environment=false")
        elif el.get("pe_given"):
            parts.append("pass_environment=true")
        uri = el["uri"]
        if el.get("boxed"):
            return ["[" + ", ".join([uri, *parts]) + "]", f"<< {k}"]
        return [f"<< {k}:" + ", ".join([uri, *parts])]
    if k == "group":
        return [f"<< blockgroup:{el['name']}"]
    if k == "hostile":
        return list(el["lines"])
    raise ValueError(k)


class Laid:
    """An element with its place in the file."""

    __slots__ = ("el", "first", "line", "last", "inner", "body_line")

    def __init__(self, el):
        self.el = el
        self.inner = ()


def lay(body, start, out, depth=0):
    """Append the lines of a body to out; return the laid out elements."""
    result = []
    for el in body:
        item = Laid(el)
        item.first = start + len(out)
        for p in el.get("pre", ()):
            if p[0] == "if":
                out.append(f"@if {p[1]}{p[2]}{p[3]}")
            elif p[0] == "label":
                out.append(f".{p[1]} Mk{p[2]}=" + "".join("{" + r + "}," for r in p[3]) + ";")
            elif p[0] == "args":
                out.append(f"[{p[1]}]")
            elif p[0] == "blank":
                out.append("")
        k = el["k"]
        if k in ("block", "rawblock"):
            args = list(el.get("tags", ()))
            if k == "rawblock":
                args.append("engine=raw")
            if el.get("iso") is not None:
                args.append("isolate=" + ("true" if el["iso"] else "false"))
            if el.get("grp"):
                args += [f"group={el['grp'][0]}", f"position={el['grp'][1]}"]
            if el.get("note"):
                args.append(f"footnote={el['note']}")
            if args:
                out.append("[" + ", ".join(args) + "]")
            item.line = start + len(out)
            delim = el.get("delim") or "-+#%"[depth % 4]
            out.append(delim * 4)
            if k == "block":
                item.inner = lay(el["body"], start, out, depth + 1)
                while el["body"] and out[-1] == "" and not el.get("loose"):
                    out.pop()
            else:
                out.extend(el["lines"])
            out.append(delim * 4)
        else:
            lines = directive(el)
            item.line = start + len(out) + (1 if k in ("mau", "raw") and el.get("boxed") else 0)
            out.extend(lines)
        item.last = start + len(out) - 1
        out.append("")
        result.append(item)
    return result


def render(tree):
    out = []
    lay(tree["body"], 0, out)
    text = "\n".join(out)
    return text if tree.get("eol", True) else text.rstrip("\n")


def layout(tree):
    return lay(tree["body"], 0, [])


# -- interpretation ------------------------------------------------------------


class Model:
    def __init__(self, texts, links=None, limit=4000):
        """texts: {text: tree} of every version of every Mau file."""
        self.texts = texts
        self.links = links or {}
        self.opens = []
        self.calls = []
        self.states = []
        self.marks = []  # opens made when each state was entered
        self.executed = []  # (source, line, kind, uri as written in the node)
        self.limit = limit
        self.work = 0
        self.laid = {}
        self.excluded = 0
        self.visible = set()
        self.site = None

    # The reader: (uri) -> text, or None if the read fails.
    def run(self, main, text, variables, reader):
        """Returns ("ok", document) or raises Stop."""
        self.reader = reader
        self.states = [dict(variables)]
        self.env = dict(variables)
        if self.site:
            self.env["mau.site"] = self.site
        self.marks = [0]
        return self.file(main, text, self.env, [main], top=True)

    def real(self, path):
        path = posixpath.normpath(path)
        for _ in range(20):
            if path in self.links:
                path = posixpath.normpath(posixpath.join(posixpath.dirname(path), self.links[path]))
                continue
            # A linked directory.
            head, _, tail = path.partition("/")
            if tail and head in self.links:
                path = posixpath.normpath(self.links[head] + "/" + tail)
                continue
            break
        return path

    def file(self, source, text, env, stack, top=False):
        if text not in self.texts:
            raise Unknown(source)
        tree = self.texts[text]
        if text not in self.laid:
            self.laid[text] = layout(tree)
        return self.body(self.laid[text], source, env, stack, top)

    def value(self, refs, env, item, source, sep):
        out = ""
        for r in refs:
            if r not in env:
                raise Stop("undefined", source, item.first, span=item.last - item.first + 1)
            out += env[r] + sep
        return out

    def words(self, el, env, item, source):
        return el.get("lead", "") + f"Mk{el['id']}=" + self.value(el.get("refs", ()), env, item, source, ",") + ";"

    def body(self, laid, source, env, stack, top):
        out = []
        groups = {}
        for item in laid:
            self.work += 1
            if self.work > self.limit:
                raise TooBig()
            el = item.el
            k = el["k"]
            labels = ""
            cond = None
            for p in el.get("pre", ()):
                if p[0] == "label":
                    labels += f"({p[1]}:Mk{p[2]}=" + self.value(p[3], env, item, source, ",") + ";)"
                elif p[0] == "if":
                    cond = p
            # Arguments are evaluated first.
            if k in ("mau", "raw"):
                uri = el["uri"]
                for name in list(env):
                    uri = uri.replace("{" + name + "}", env[name])
                if "{" in uri:
                    raise Stop("undefined", source, item.first, span=item.last - item.first + 1)
                call = {n: v + self.value(refs, env, item, source, "") for n, v, refs in el.get("call", ())}
            if cond:
                if cond[1] not in env:
                    raise Stop("undefined", source, item.first, span=item.last - item.first + 1)
                if (env[cond[1]] == cond[3]) != (cond[2] == "=="):
                    self.excluded += 1
                    continue
            if k == "hostile":
                raise Unknown("a hostile element is not excluded")
            if k == "com":
                continue
            if k == "def":
                if el.get("flag"):
                    value = "true" if el["flag"] == "+" else "false"
                else:
                    value = el["val"] + self.value(el.get("refs", ()), env, item, source, "")
                env[el["name"]] = value
                if top:
                    self.states.append({n: x for n, x in env.items() if n != "mau.site"})
                    self.marks.append(len(self.opens))
                continue
            if k == "par":
                out.append(self.words(el, env, item, source) + "\n" + "".join(f"Mk{i}=;\n" for i in el.get("more", ())) + labels)
            elif k == "head":
                out.append("<h>" + self.words(el, env, item, source) + labels)
            elif k == "list":
                out.append("<l>" + "".join(f"<i>{x}" for x in [self.words(el, env, item, source)] + [f"Mk{i}=;" for i in el.get("more", ())]) + labels)
            elif k == "rule":
                out.append("---" + labels)
            elif k == "rawblock":
                content = "".join(line + "\n" for line in el["lines"])
                self.block(el, f"<rawb>{content}</rawb>" + labels, groups, out)
            elif k == "block":
                inner = self.body(item.inner, source, env, stack, top)
                self.block(el, f"<div>{inner}</div>" + labels, groups, out)
            elif k == "group":
                out.append((el["name"], labels))
            elif k == "raw":
                self.executed.append((source, item.line, "raw", uri))
                text = self.read(uri, source, item.line)
                content = "".join(line + "\n" for line in text.split("\n"))
                out.append(f"<raw {uri}>{content}</raw>" + labels)
            elif k == "mau":
                if any(self.real(uri) == self.real(s) for s in stack):
                    raise Stop("loop", source, item.line, uri)
                self.executed.append((source, item.line, "mau", uri))
                text = self.read(uri, source, item.line)
                inside = dict(env) if el.get("pe", True) else {}
                inside.update(call)
                self.calls.append([source, uri, call, item.line])
                inner = self.file(uri, text, inside, stack + [uri])
                out.append(f"<mau {uri}>{inner}</mau>" + labels)
        done = []
        for x in out:
            if isinstance(x, tuple):
                if x[0] not in groups:
                    raise Unknown("a group without blocks")
                done.append("<bg>" + "".join(groups.get(x[0], ())) + "</bg>" + x[1])
            else:
                done.append(x)
        return "".join(done)

    def block(self, el, text, groups, out):
        if el.get("grp"):
            groups.setdefault(el["grp"][0], []).append(text)
        else:
            out.append(text)

    def read(self, uri, source, line):
        text = self.reader(uri)
        self.opens.append(posixpath.normpath(uri))
        if text is None:
            raise Stop("read", source, line, uri)
        return text


def flat(node):
    """The same text from the output of the base visitor (canonical form)."""
    if not isinstance(node, list) or not node:
        return str(node) if node is not None else ""
    if node[0] == "list":
        return "".join(flat(x) for x in node[1])
    if node[0] != "dict":
        return f"?{node[0]}?"
    d = {k: v for k, v in node[1]}
    t = d.get("_type")
    labels = "".join(flat(v) for _, v in d["labels"][1]) if isinstance(d.get("labels"), list) and d["labels"][0] == "dict" else ""
    content = flat(d["content"]) if "content" in d else ""
    if t in ("text", "word", "verbatim"):
        return d["value"]
    if t == "raw-line":
        return d["value"] + "\n"
    if t == "label":
        return f"({d['role']}:{content})"
    if t == "include-mau":
        return f"<mau {d['uri']}>{content}</mau>" + labels
    if t == "include-raw":
        return f"<raw {d['uri']}>{content}</raw>" + labels
    if t == "paragraph-line":
        return content + "\n"
    if t == "header":
        return "<h>" + content + labels
    if t == "list":
        return "<l>" + content + labels
    if t == "list-item":
        return "<i>" + content
    if t == "horizontal-rule":
        return "---" + labels
    if t == "raw":
        return f"<rawb>{content}</rawb>" + labels
    if t == "block":
        return f"<div>{content}</div>" + labels
    if t == "blockgroup":
        items = "".join(flat(dict(map(tuple, v[1]))["block_data"]) for _, v in d["items"][1])
        return f"<bg>{items}</bg>" + labels
    return content + labels


# -- generation ------------------------------------------------------------------

VALUES = ["a1", "b2", "x y", "true"]
NAMES = ["v0", "v1", "v2", "ns.v3"]
ROLES = ["role", "cite", "x-y"]
LEADS = ["\ufeff", "e\u0301", "\u212b", "\ufb01", "\xa0", "a\tb ", "x\u2028y", "x\x85y", "x\x0cy", "x\x1cy", "\x00", "\u200b", "a  b ", "\U0001f600", "\x7f"]


class Maker:
    def __init__(self, rng, *, files=None, loops=0.3, missing=0.0, conds=0.3, depth=3, aliases=0.3, pe=0.2,
                 raws=True, size=4, clash=0.0, labels=0.2, hostile=0.0, chain=False, site=None, bare=0.0, hollow=0.0):  # fmt: skip
        self.r = rng
        self.site = site
        # Isolated files that miss some of the variables they mention.
        self.bare = bare
        # Files all of whose content goes to a group that is never shown.
        self.hollow = hollow
        self.n = files if files is not None else rng.choice([1, 2, 3, 3, 4, 5, 6])
        self.loops = loops
        self.missing = missing
        self.conds = conds
        self.depth = depth
        self.aliases = aliases
        self.pe = pe
        self.size = size
        self.raws = raws
        self.clash = clash
        self.hostile = hostile
        self.labels = labels
        self.counter = 0
        # A long chain: files are included by the one before them only.
        self.chain = chain
        self.mau = ["main.mau"]
        alike = rng.random() < 0.35
        for i in range(1, self.n + 1):
            name = rng.choice(["", "", "sub/", "sub/deep/"]) + f"f{i}.mau"
            if alike and rng.random() < 0.6:
                # Another file with a name that looks like that of an earlier one.
                old = rng.choice(self.mau)
                folder, _, last = old.rpartition("/")
                folder += "/" if folder else ""
                name = rng.choice([
                    *[f + last for f in ("", "sub/", "sub/deep/", "sub/") if f != folder], folder + last.swapcase(), folder + last.capitalize(),
                    old + ".mau", old.removesuffix(".mau"), folder + "x" + last, folder + last.replace(".mau", "e\u0301.mau"), folder + last.replace(".mau", "\u00e9.mau"),
                    folder + "." + last,
                ])  # fmt: skip
                if name in self.mau:
                    name = f"f{i}.mau"
            self.mau.append(name)
        self.raw = {}
        self.links = {}
        self.vars = {"v0": "a1", "v1": "b2", "p0": None, "zz": "no" if hostile else None}
        self.groups = 0

    def p(self, x):
        return self.r.random() < x

    def new(self):
        self.counter += 1
        return self.counter

    def refs(self):
        if self.site and self.p(0.06):
            return ["mau.site"]
        if self.bare and self.p(self.bare):
            return [self.r.choice(["v2", "ns.v3"])]
        if self.p(0.35):
            return [self.r.choice(["v0", "v1"]) for _ in range(self.r.choice([1, 1, 2]))]
        return []

    def spell(self, name):
        """Another way to write a path."""
        if not self.p(self.aliases):
            return name
        k = self.r.randrange(5)
        if k == 0:
            return "./" + name
        if k == 1:
            return "sub/../" + name
        if k == 2:
            link = f"l{self.r.randrange(3)}-{name.replace('/', '-')}"
            self.links[link] = name
            return link
        if k == 3 and name.startswith("sub/"):
            self.links["lsub"] = "sub"
            return "lsub/" + name[4:]
        if k == 4 and self.vars["p0"] in (None, name):
            self.vars["p0"] = name
            return "{p0}"
        return ".//" + name

    def pre(self, el, cond=True):
        out = []
        if cond and self.p(self.conds):
            out.append(["if", self.r.choice(["v0", "v1"]), self.r.choice(["==", "==", "!="]), self.r.choice(["a1", "b2"])])
        if el["k"] != "def" and self.p(self.labels):
            out.append(["label", self.r.choice(ROLES), self.new(), self.refs()])
        if out and self.p(0.1):
            out.append(["blank"])
        self.r.shuffle(out)
        if out:
            el["pre"] = out
        return el

    def excluded(self, me, depth):
        """An element that would break the run if anything of it had an effect."""
        r = self.r
        inc = lambda: r.choice([  # noqa: E731
            "<< mau:absent.mau", "<< raw:absent.txt", f"<< mau:{me}", "<< mau:main.mau", "<< mau:evil.mau", "<< raw:bad.bin",
            "<< mau:bad.bin", "<< raw:evil.txt", "<< mau:sub", "<< mau:evil.mau, call:v0=EVIL", "<< mau:./main.mau",
        ])  # fmt: skip
        i = self.new()
        par = lambda: r.choice([  # noqa: E731
            f"Mk{i}= EVIL {{undefined}};", f"EVIL [footnote](nope{i})", f"EVIL [header](nope{i})", f"EVIL Mk{i} *x* {{v0}}",
            f"EVIL [if:undefined==1](a, b)", "EVIL [class](x)", "EVIL",
        ])  # fmt: skip
        k = r.random()
        args = None
        if k < 0.35:
            lines = [inc()]
        elif k < 0.6:
            d = "&$!^"[depth % 4] * 4
            body = []
            for _ in range(r.choice([1, 1, 2, 3])):
                body += [r.choice([inc, inc, par, lambda: ":v0:EVIL", lambda: ":+zz:", lambda: "= EVIL", lambda: "[name=dup]\n= EVIL",
                                   lambda: "@if undefined==1\nEVIL"])(), ""]  # fmt: skip
            lines = [d, *"\n".join(body).split("\n")[: -1], d]
            args = r.choice([None, None, "isolate=false", "engine=raw", f"footnote=fx{r.randrange(2)}", f"group=gx, position=p{r.randrange(2)}", "#t1", "classes=evil"])
        elif k < 0.78:
            lines = [par() for _ in range(r.choice([1, 1, 2]))]
        elif k < 0.86:
            lines = ["= " + par()]
            args = r.choice([None, "name=dup", "#evil"])
        elif k < 0.94:
            c = r.choice("*#")
            lines = [f"{c} " + par(), f"{c}{c} " + par()]
            args = r.choice([None, "start=7" if c == "#" else None])
        elif k < 0.97:
            lines = [r.choice(["<< toc", "<< footnotes", "<< image:evil.png"])]
        else:
            lines = ["---"]
        if args is None and "<<" not in lines[0] and r.random() < 0.2:
            args = r.choice(["evil", "#evil", "*evil", "k=evil"])
        pre = [["if", "zz", r.choice(["==", "=="]), "yes"] if r.random() < 0.8 else ["if", "zz", "!=", "no"]]
        if self.p(0.35):
            pre.append(["label", r.choice(ROLES), self.new(), []])
        if args:
            pre.append(["args", args])
        r.shuffle(pre)
        return {"k": "hostile", "pre": pre, "lines": lines}

    def element(self, me, depth, groups):
        if self.hostile and self.p(self.hostile):
            return self.excluded(me, depth)
        r = self.r.random()
        if r < 0.24:
            el = {"k": "par", "id": self.new(), "refs": self.refs()}
            if self.p(0.2):
                el["more"] = [self.new()]
            if self.p(0.12):
                # Characters that must arrive as they are.
                el["lead"] = self.r.choice(LEADS)
            elif self.p(0.01):
                # Longer than a buffer or a page.
                el["lead"] = self.r.choice("xy") * self.r.choice([8185, 20000, 66000, 140000])
            return self.pre(el)
        if r < 0.29:
            return self.pre({"k": "head", "id": self.new(), "refs": self.refs(), "level": self.r.choice([1, 2])})
        if r < 0.34:
            return self.pre({"k": "list", "id": self.new(), "refs": self.refs(), "ordered": self.p(0.5), "more": [self.new()]})
        if r < 0.36:
            return self.pre({"k": "rule"})
        if r < 0.39:
            return {"k": "com", "id": self.new(), "short": self.p(0.5)}
        if r < 0.55:
            name = self.r.choice(["v0", "v1", "v1", "v2", "ns.v3"] + (["ns"] if self.p(self.clash) else []))
            if self.p(0.1):
                return {"k": "def", "name": name, "flag": self.r.choice("+-")}
            return {"k": "def", "name": name, "val": self.r.choice(["a1", "b2", "x y", "c"]), "refs": self.refs() if self.p(0.4) else []}
        if r < 0.75 and depth < self.depth:
            body = [self.element(me, depth + 1, {}) for _ in range(self.r.choice([1, 2, 3]))]
            el = {"k": "block", "body": body}
            if self.p(0.4):
                el["iso"] = self.p(0.5)
            if self.p(0.15):
                self.groups += 1
                name = f"g{self.groups}"
                el["grp"] = [name, "p1"]
                groups[name] = True
                return self.pre(el, cond=False)
            return self.pre(el)
        if r < 0.79:
            return self.pre({"k": "rawblock", "lines": [f"Mk{self.new()}={{v0}};", "<< mau:none.mau"]})
        return self.include(me)

    def include(self, me):
        i = self.mau.index(me)
        later = self.mau[i + 1 :]
        r = self.r.random()
        el = None
        if self.p(self.missing):
            k = self.r.choice(["mau", "raw"])
            el = {"k": k, "uri": self.r.choice(["absent.mau", "sub/none.mau", "sub", "n\0l.mau"])}
        elif self.p(self.loops):
            el = {"k": "mau", "uri": self.spell(self.r.choice(self.mau[: i + 1]))}
        elif later and r < 0.72 and not self.chain:
            # Prefer the next files, to get deep chains.
            el = {"k": "mau", "uri": self.spell(self.r.choice(later[:2] if self.p(0.7) else later))}
        elif self.raws:
            if self.raw and self.p(0.4):
                name = self.r.choice(sorted(self.raw))
            else:
                name = self.r.choice(["", "sub/"]) + f"r{len(self.raw)}.txt"
                n = self.new()
                if self.p(0.04):
                    # Longer than a buffer or a page.
                    self.raw[name] = f"Rw{n} " + self.r.choice([
                        "x" * 20000, "x" * 70000, "x" * 140000, "line\n" * 1500, ("y" * 999 + "\n") * 20, ("y" * 4000 + "\n") * 18, "z" * 8190 + "\n\n", "z" * 65530 + "\u65e5" * 9,
                    ]) + f"\nend{n}\n"  # fmt: skip
                    return self.pre({"k": "raw", "uri": self.spell(name)})
                self.raw[name] = self.r.choice([f"Rw{n}\n", f"Rw{n} {{v0}}\n\n  << mau:no\n", f"Rw{n}", "", f"é Rw{n}\n日本\n", f"Rw{n}\x0c\u2028\x85\x1c\x0bz\n \t\n", f"Rw{n}\r\nx\r\n", f"\ufeffRw{n}", f"e\u0301 \u212b Rw{n}\n\ufb01 \u1e9b\u0323\n", f"Rw{n} \x00 \x1b[0m\n\n\n", f"Rw{n} " + "\u65e5 " * 3000 + "\n"])
            el = {"k": "raw", "uri": self.spell(name)}
        else:
            return {"k": "par", "id": self.new()}
        if el["k"] == "mau":
            call = []
            if self.p(0.35):
                for name in self.r.sample(["v0", "v1", "v2", "ns.v3"] + (["ns"] if self.p(self.clash) else []), self.r.choice([1, 1, 2])):
                    call.append([name, self.r.choice(["a1", "b2", "x y", "k"]), self.refs() if self.p(0.4) else []])
                el["call"] = call
            if self.p(self.pe):
                el["pe"] = False
                # The included file mentions v0 and v1.
                have = [c[0] for c in call]
                if self.bare and self.p(0.15):
                    have.append(self.r.choice(["v0", "v1"]))
                el["call"] = call + [[n, "a1", []] for n in ("v0", "v1", "p0", "zz") if n not in have and self.vars.get(n)]
                for c in el["call"]:
                    if c[0] in ("p0", "zz"):
                        c[1] = self.vars[c[0]]
            elif self.p(0.1):
                el["pe_given"] = True
        if self.p(0.15):
            el["tags"] = ["#t1"]
        if self.p(0.2):
            el["boxed"] = True
        return self.pre(el)

    def body(self, me, n):
        out, groups = [], {}
        for _ in range(n):
            out.append(self.element(me, 0, groups))
        for g in groups:
            out.append({"k": "group", "name": g})
        if not any(e["k"] in ("par", "head", "list", "rule", "block", "rawblock") and "pre" not in e and not e.get("grp") for e in out):
            out.insert(self.r.randrange(len(out) + 1), {"k": "par", "id": self.new()})
        return out

    def tree(self, me):
        if me != "main.mau" and self.p(self.hollow):
            inside = [self.include(me) for _ in range(self.r.choice([1, 1, 2]))]
            body = [{"k": "block", "body": inside, "grp": ["gz", "p1"]}]
            if self.p(0.4):
                body.append({"k": "def", "name": "v1", "val": "c", "refs": []})
            if self.p(0.3):
                body.append({"k": "com", "id": self.new(), "short": True})
            if self.p(0.3):
                body.append({"k": "block", "body": [{"k": "par", "id": self.new()}, *([self.include(me)] if self.p(0.5) else [])], "grp": ["gz", "p2"]})
        else:
            body = self.body(me, self.r.randint(1, self.size))
            if self.p(0.1) and not (body[0]["k"] in ("par",) and body[0].get("pre")):
                body.insert(0, {"k": "par", "id": self.new(), "lead": self.r.choice(["\ufeff", "\ufeff", *LEADS])})
        tree = {"body": body}
        if self.p(0.3):
            tree["eol"] = False
        return tree


def make(rng, **knobs):
    """A project: {"trees": {path: tree}, "raw": {path: text}, "vars", "links", "main"}."""
    chain = knobs.get("chain")
    for _ in range(50):
        m = Maker(rng, **knobs)
        trees = {me: m.tree(me) for me in m.mau}
        # Every file is used by the one before it, most of the time.
        for a, b in zip(m.mau, m.mau[1:]):
            if m.p(0.97 if chain else 0.8):
                body = trees[a]["body"]
                el = m.pre({"k": "mau", "uri": m.spell(b)}, cond=m.p(0.3))
                if m.p(0.25):
                    el = {"k": "block", "body": [el]}
                if any(e.get("grp", ["?"])[0] == "gz" for e in body):
                    el = {"k": "block", "body": [el], "grp": ["gz", "p9"]}
                body.insert(rng.randrange(len(body) + 1), el)
        variables = {k: v for k, v in m.vars.items() if v is not None}
        # p0 must be known when v is passed on.
        proj = {"trees": trees, "raw": m.raw, "vars": variables, "links": m.links, "main": "main.mau"}
        if m.site:
            proj["site"] = m.site
        if m.hostile:
            proj["extra"] = {"evil.mau": ":v0:EVIL\n\nEVIL\n", "evil.txt": "EVIL\n", "bad.bin": "\udcff\udcfe\n"}
        try:
            predict(proj)
        except TooBig:
            continue
        return proj
    raise RuntimeError("no project")


def files_of(proj):
    files = {"sub": None, "sub/deep": None}
    for name, tree in proj["trees"].items():
        files[name] = render(tree)
    files.update(proj["raw"])
    files.update(proj.get("extra", {}))
    for name, target in proj["links"].items():
        files[name] = {"link": target}
    return files


class Outcome:
    def __init__(self):
        self.stop = None
        self.doc = None


def predict(proj, reader=None, extra=None, limit=400):
    """Interpret a project. The default reader serves the rendered files."""
    files = files_of(proj)
    texts = {files[n]: t for n, t in proj["trees"].items()}
    for tree in extra or ():
        texts[render(tree)] = tree
    model = Model(texts, proj["links"], limit)
    model.site = proj.get("site")
    if reader is None:

        def reader(uri):
            return serve(model, files, uri)

    out = Outcome()
    try:
        out.doc = model.run(proj["main"], files[proj["main"]], proj["vars"], reader)
    except Stop as stop:
        out.stop = stop
    out.model = model
    return out


def serve(model, files, uri):
    text = files.get(model.real(uri))
    if not isinstance(text, str):
        return None
    try:
        text.encode("utf-8")
    except UnicodeError:
        return None
    return text
