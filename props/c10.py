"""C10: template choice follows sources and specificity, never discovery order."""

import posixpath

from props.common import *  # noqa: F403

RUNS = {"quick": 700, "thorough": 40000}
RULE = (
    "A scenario is one document and one to three visitors with their own template tables spread over class "
    "defaults, providers, directories (nested, dotted) and custom templates, in one process, one after the "
    "other or interleaved. All templates have the same body, which shows the name of the template and "
    "everything the node contains, so the output tells which template rendered which node; an oracle of its "
    "own reads the node tree of the base visitor and says which templates are allowed at each node. Then the "
    "same with other listing and plugin orders, and with faults on the listing, stat, open and read of "
    "template files. Non-trivial: a run in which at least two templates competed for some node, or a fault "
    "on the template files fired; counted by distinct (document, tables, host, fault)."
)
EXT = {"html": ".html", "tex": ".tex", "jinja": ".j2"}
TYPES = (
    "word text verbatim style label header paragraph paragraph-line block document horizontal-rule include include-image "
    "include-mau include-raw footnotes-item footnotes toc-item toc blockgroup-item blockgroup list-item list macro "
    "macro-class macro-link macro-image macro-header macro-footnote macro-unicode macro-raw raw-line raw source-marker "
    "source-line source footnote"
).split()  # fmt: skip
# Types that appear often, and their likely parents.
COMMON = ["paragraph", "paragraph", "text", "text", "style", "style", "block", "header", "list", "list-item", "label", "macro", "include", "paragraph-line", "verbatim", "raw", "source", "document", "include-mau", "include-raw", "macro-footnote", "macro-link", "blockgroup-item"]
PARENTS = ["paragraph", "paragraph", "header", "block", "document", "style", "label", "list", "list-item", "macro-class", "include-mau", "paragraph-line", "source", "raw"]
CUSTOM = {
    "style": [("style", v) for v in ("star", "underscore", "tilde", "caret")],
    "macro": [("name", "gen"), ("name", "other")],
    "label": [("role", v) for v in ("role", "cite", "x-y", "")],
    "include": [("ctype", "custom"), ("ctype", "other")],
    "blockgroup-item": [("position", "p1"), ("position", "p2")],
    "blockgroup": [("name", "g1"), ("name", "g2")],
}
OPEN, CLOSE = "\u27e6", "\u27e7"
# The fields of a body, in order: (kind, field, Jinja expression).
FIELDS = [
    ("value", "value", "{{ value }}"),
    ("value", "line_content", "{{ line_content }}"),
    ("nodes", "content", "{{ content }}"),
    ("nodes", "footnotes", "{{ footnotes }}"),
    ("data", "header", "{{ (header or {}).content }}"),
    ("data", "footnote", "{{ (footnote or {}).content }}"),
    ("nodes", "plain_entries", "{{ plain_entries }}"),
    ("nodes", "nested_entries", "{{ nested_entries }}"),
    ("nodes", "entries", "{{ entries }}"),
    ("map", "items", "{% if items is mapping %}{% for k, v in items.items() %}{{ v }}{% endfor %}{% endif %}"),
    ("node", "block", "{{ block }}"),
    ("node", "marker", "{{ marker }}"),
    ("map", "labels", "{% if labels is mapping %}{% for k, v in labels.items() %}{{ v }}{% endfor %}{% endif %}"),
]


def body(tid):
    return OPEN + str(tid) + "|" + "\u00a6".join(expr for _, _, expr in FIELDS) + CLOSE


# -- generation ---------------------------------------------------------------


LIKELY = {
    "text": ["paragraph", "style", "header", "label", "list-item", "list"], "style": ["paragraph", "style", "list"], "verbatim": ["paragraph"],
    "label": ["paragraph", "block", "header"], "paragraph": ["block", "document", "include-mau"], "header": ["document", "block"],
    "list-item": ["list", "list-item"], "macro": ["paragraph"], "block": ["document", "block"], "source-line": ["source"], "raw-line": ["raw", "include-raw"],
}  # fmt: skip


# Nodes that can carry arguments.
ARGS = {"paragraph", "block", "header", "list", "include", "raw", "source", "include-raw", "include-mau", "horizontal-rule", "macro", "blockgroup"}


def claims(rng, ntype, prefixes):
    out = []
    lots = rng.choice([0.5, 1, 1, 1.5])

    def p(x):
        return rng.random() < x * lots

    if p(0.25 if ntype in ARGS else 0.03):
        out.append(rng.choice(["note", "quote", "note", "quote", "note", "quote", "_draft", "Note", "html"]))
    if p(0.15):
        out.append("pf_" + rng.choice(prefixes + ["book", "web", "other"]))
    if p(0.25):
        out.append("pt_" + rng.choice(LIKELY.get(ntype, PARENTS) if rng.random() < 0.85 else PARENTS))
    if p(0.12):
        out.append("pts_" + rng.choice(["note", "quote"]))
    if p(0.05 if ntype not in ("text", "verbatim", "macro") else 0.2):
        key, value = rng.choice(CUSTOM["style"] + CUSTOM["label"] + CUSTOM["blockgroup-item"])
        out.append(f"pts_{key}__{value}")
    for t in ("t1", "t2", "T1", "note"):
        if p(0.16 if ntype in ARGS else 0.03):
            out.append("tg_" + t)
    if ntype in CUSTOM and p(0.4):
        key, value = rng.choice(CUSTOM[ntype])
        out.append(f"{key}__{value}")
    if rng.random() < 0.01:
        out.append("nokey__x")
    rng.shuffle(out)
    return out


def nest(flat, rng):
    """A nested mapping with the same flat form."""
    out = {}
    for name, text in flat.items():
        parts = name.split(".")
        cut = rng.randrange(len(parts)) if rng.random() < 0.5 else 0
        d = out
        try:
            for part in parts[:cut]:
                d = d.setdefault(part, {})
                if not isinstance(d, dict):
                    raise KeyError
            key = ".".join(parts[cut:])
            if key in d:
                raise KeyError
            d[key] = text
        except KeyError:
            out[name] = text
    return out


class Table:
    """The templates of a scenario: id -> name, by source."""

    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def draw(self, types, k, prefixes, ext, reuse=()):
        out = {}
        for _ in range(k):
            if reuse and self.r.random() < 0.35:
                name = self.r.choice(reuse)
            else:
                t = self.r.choice(types)
                name = ".".join([t, *claims(self.r, t, prefixes)])
            self.n += 1
            e = ext if self.r.random() < 0.95 else self.r.choice([".html", ".tex", ".bak", ".j2"])
            out[name + e] = body(self.n)
        return out


def layout(rng, flat, d):
    """Files of a template directory whose flat form is `flat`."""
    files = {}
    for name, text in flat.items():
        stem, dot, ext = name.rpartition(".")
        parts = stem.split(".")
        # Some dots become directory levels.
        path = parts[0]
        for part in parts[1:]:
            path += rng.choice([".", ".", "/"]) + part
        files[f"{d}/{path}.{ext}"] = text + rng.choice(["", "", "\n"])
    return files


def relocate(rng, files, dirs):
    """Some template files and directories become symbolic links."""
    n = 0
    places = [f for f in files if any(f.startswith(d + "/") for d in dirs)]
    folders = {f.rpartition("/")[0] for f in places} - set(dirs)
    for folder in sorted(folders):
        # No link below another link.
        inside = [f for f in files if f.startswith(folder + "/")]
        if rng.random() < 0.5 and inside and all(isinstance(files[f], str) for f in inside):
            n += 1
            for f in inside:
                files[f"store/d{n}" + f[len(folder) :]] = files.pop(f)
            files[folder] = {"link": "../" * folder.count("/") + f"store/d{n}"}
    for f in places:
        if isinstance(files.get(f), str) and rng.random() < 0.3:
            n += 1
            target = f"store/f{n}" + rng.choice(["", ".txt", ".html"])
            files[target] = files.pop(f)
            files[f] = {"link": "../" * f.count("/") + target}


def seen(files):
    """{path: text} of what can be read, through the links."""
    out = {}
    for f, text in files.items():
        if isinstance(text, dict):
            target = posixpath.normpath(posixpath.join(posixpath.dirname(f), text["link"]))
            if target in files:
                out[f] = files[target]
                continue
            below = {f + g[len(target) :]: t for g, t in files.items() if g.startswith(target + "/")}
            out.update(below or {f: "\udcff"})
        else:
            out[f] = text
    return out


def make(rng, index, tier):
    proj = project(rng, errors=0, size=rng.choice([2, 3, 4, 6]), visitors=False)
    proj["config"].pop("visitor", None)
    files = dict(proj["files"])
    for _ in range(rng.choice([1, 2, 3])):
        # Elements for which many templates compete.
        args = rng.choice(["", "*note", "*quote", "*note, #t1", "#t1, #t2", "*quote, #t1, #t2", "#t2", "#t1, #T1", "*note, #T1, #t2", "#note, #t1", "*quote, #note", "*_draft", "*_draft, #t1", "*Note", "*html"])
        args = f"[{args}]\n" if args else ""
        args += rng.choice(["", "", ".role A _b_\n", ".cite C\n", ".x-y *w*\n.role v\n"])
        el = rng.choice(["Par *bold _x_* `v` ~t~ [gen](a)\n", "== Head *x* `y`\n", "* item _x_\n** sub ^y^\n", "----\nIn *block*\n\n* item `z`\n----\n", "<< custom\n", "[engine=raw]\n----\nraw\n----\n"])
        if el.startswith("["):
            args = args.rstrip("\n").replace("]", ", engine=raw]", 1) + "\n" if args.startswith("[") else args + "[engine=raw]\n"
            el = el.partition("\n")[2]
        files[proj["main"]] += "\n\n" + args + el
    nvis = rng.choice([1, 1, 2, 3])
    vis = rng.choice(["html", "html", "tex", "jinja"])
    tab = Table(rng)
    # A few types get most of the templates.
    focus = rng.sample(["paragraph", "text", "style", "header", "label", "block", "list", "include", "macro", "verbatim", "list-item", "raw"], rng.choice([2, 3, 4])) * 5 + COMMON
    # What can be rendered by anything.
    defaults = {}
    for t in TYPES:
        if rng.random() < 0.992:
            tab.n += 1
            defaults[t + EXT[vis]] = body(tab.n)
    pool = ["book", "web"]
    names = list(defaults)
    providers = {}
    reuse = [n.rsplit(".", 1)[0] for n in names]
    extra = tab.draw(focus, rng.choice([0, 6]), pool, EXT[vis])
    defaults.update(extra)
    for name in ("alpha", "beta", "gamma"):
        flat = tab.draw(focus, rng.choice([0, 4, 8]), pool, EXT[vis], reuse)
        providers[name] = nest(flat, rng)
        reuse += [n.rsplit(".", 1)[0] for n in flat]
    dirs = ["tpl", "lib/tpl2", "tpl.d"]
    for d in dirs:
        flat = tab.draw(focus, rng.choice([2, 5, 9]), pool, EXT[vis], reuse)
        files[d] = None
        placed = layout(rng, flat, d)
        # No file where a directory is needed, no directory twice.
        folders = {f.rpartition("/")[0] for f in placed}
        placed = {f: t for f, t in placed.items() if f not in folders}
        files.update(placed)
        reuse += [n.rsplit(".", 1)[0] for n in flat]
        if rng.random() < 0.3:
            files[f"{d}/empty"] = None
    files = {f: t for f, t in files.items() if t is not None or not any(o.startswith(f + "/") for o in files if o != f)}
    if rng.random() < 0.35:
        relocate(rng, files, dirs)
    if rng.random() < 0.12:
        # A template that is not text, or is gone; the name decides whether it matters.
        d = rng.choice(dirs)
        name = rng.choice(["text", "zz", "block.odd", "sub/paragraph.odd", "README"]) + rng.choice([EXT[vis], EXT[vis], ".md", ".bak"])
        if not any(f.startswith(f"{d}/{name}") or f == f"{d}/sub" for f in files):
            files[f"{d}/{name}"] = rng.choice(["\udcff", "caf\udce9 " + body(0), body(0) + "\udcc3", {"link": "gone" + EXT[vis]}])
    runs = []
    for i in range(nvis):
        t = {}
        if rng.random() < 0.7:
            t["providers"] = rng.sample(sorted(providers), rng.choice([1, 2, 3]))
            if rng.random() < 0.15:
                # Named again: the last one counts.
                t["providers"].append(rng.choice(t["providers"]))
        if rng.random() < 0.8:
            t["paths"] = [rng.choice([p, p, p, "./" + p, p + "/"]) for p in rng.sample(dirs, rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.15:
                t["paths"].append(rng.choice(t["paths"]))
            if rng.random() < 0.05:
                t["paths"].insert(rng.randrange(2), "nowhere")
        if rng.random() < 0.5:
            t["custom"] = nest(tab.draw(focus, rng.choice([2, 5]), pool, EXT[vis], reuse), rng)
        if rng.random() < 0.5:
            t["prefixes"] = rng.sample(["book", "web", "third"], rng.choice([1, 2]))
        runs.append({"templates": t})
    sc = {"proj": {**proj, "files": files}, "vis": vis, "defaults": nest(defaults, rng), "providers": providers, "runs": runs}
    sc["hosts"] = [{"listing": rng.randrange(1000), "plugin_order": rng.randrange(1000), **({"chunk": 3} if rng.random() < 0.2 else {})}
                   for _ in range(rng.choice([1, 2]))]  # fmt: skip
    sc["switches"] = [[rng.randrange(4), position(rng), rng.randrange(4)] for _ in range(rng.choice([0, 2, 4]))]
    sc["faults"] = [{"ppm": rng.randrange(1_000_000), "pick": rng.randrange(1000), "run": rng.randrange(nvis)} for _ in range(rng.choice([2, 3]))]
    return sc


# -- oracle -------------------------------------------------------------------


def revive(x, table):
    """Undo sim.canon.plain for plain data."""
    if not isinstance(x, list):
        return x
    tag = x[0]
    if tag == "ref":
        return table[x[1]]
    if tag == "dict":
        d = {}
        table.append(d)
        for k, v in x[1]:
            key = revive(k, table)
            d[key] = revive(v, table)
        return d
    if tag == "list":
        out = []
        table.append(out)
        for v in x[1]:
            out.append(revive(v, table))
        return out
    if tag in ("enum", "bytes", "path"):
        return x
    table.append(x)
    return x


def flatten(d, prefix=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flatten(v, prefix + k + "."))
        else:
            out[prefix + k] = v
    return out


class T:
    def __init__(self, name, text):
        self.id = int(text[1 : text.index("|")])
        self.name = name
        self.type, *parts = name.split(".")
        self.subtype = self.prefix = self.ptype = self.psub = None
        self.tags, self.custom, self.pcustom = [], {}, {}
        for p in parts:
            if p.startswith("pt_"):
                self.ptype = p[3:]
            elif p.startswith("pts_"):
                if "__" in p:
                    k, v = p[4:].split("__")
                    self.pcustom[k] = v
                else:
                    self.psub = p[4:]
            elif p.startswith("pf_"):
                self.prefix = p[3:]
            elif p.startswith("tg_"):
                self.tags.append(p[3:])
            elif "__" in p:
                k, v = p.split("__")
                self.custom[k] = v
            else:
                self.subtype = p
        self.rank = (len(self.custom), bool(self.subtype), bool(self.prefix), bool(self.ptype), len(self.pcustom), bool(self.psub), len(self.tags))


def fields_of(node):
    t = node.get("_type")
    if t in CUSTOM:
        key = CUSTOM[t][0][0]
        return {key: node.get(key)}
    return {}


class Unknown(Exception):
    pass


def table_for(sc, run):
    """The template table of one visitor, by the documented rules."""
    ext = EXT[sc["vis"]]
    t = run["templates"]
    flat = flatten(sc["defaults"])
    for p in t.get("providers", []):
        flat.update(flatten(sc["providers"][p]))
    for d in t.get("paths", []):
        d = d.removeprefix("./").rstrip("/")
        if d == "nowhere":
            return None
        for f, text in seen(sc["proj"]["files"]).items():
            if f.startswith(d + "/") and f.endswith(ext) and text is not None:
                if any("\udc80" <= c <= "\udcff" for c in text):
                    return None
                flat[f[len(d) + 1 :].replace("/", ".")] = text
    flat.update(flatten(t.get("custom", {})))
    out = {}
    for name, text in flat.items():
        if name.endswith(ext):
            x = T(name[: -len(ext)], text)
            out.setdefault(x.type, []).append(x)
    return out


def allowed(node, ancestors, table, prefixes, stats):
    parent = node.get("parent") or {}
    pfields = None
    if parent:
        for a in reversed(ancestors):
            if a.get("_type") == parent.get("_type"):
                pfields = fields_of(a)
                break
    for prefix in [*prefixes, None]:
        found = []
        for t in table.get(node["_type"], []):
            if t.prefix != prefix:
                continue
            if any(fields_of(node).get(k) != v for k, v in t.custom.items()):
                continue
            if t.subtype and t.subtype != node.get("subtype"):
                continue
            if (t.pcustom or t.ptype or t.psub) and not parent:
                continue
            if t.ptype and t.ptype != parent.get("_type"):
                continue
            if t.psub and t.psub != parent.get("subtype"):
                continue
            if t.pcustom:
                if pfields is None:
                    raise Unknown
                if any(pfields.get(k) != v for k, v in t.pcustom.items()):
                    continue
            if not set(t.tags) <= set(node.get("tags") or []):
                continue
            found.append(t)
        if found:
            if len(found) > 1 or prefix is not None:
                stats["competed"] = stats.get("competed", 0) + 1
            best = max(t.rank for t in found)
            return {t.id: t.name for t in found if t.rank == best}
    return {}


class Bad(Exception):
    pass


class Reader:
    """Follow the output of the visitor along the node tree."""

    def __init__(self, text, table, prefixes, stats):
        self.s = text
        self.i = 0
        self.table = table
        self.prefixes = prefixes
        self.stats = stats

    def expect(self, text, node):
        if not self.s.startswith(text, self.i):
            raise Bad(f"expected {text!r} in a {node.get('_type')} at ...{self.s[max(0, self.i - 60) : self.i + 60]!r}")
        self.i += len(text)

    def space(self):
        while self.i < len(self.s) and self.s[self.i] in " \n":
            self.i += 1

    def node(self, node, anc):
        ok = allowed(node, anc, self.table, self.prefixes, self.stats)
        self.expect(OPEN, node)
        j = self.s.index("|", self.i)
        tid = int(self.s[self.i : j])
        self.i = j + 1
        if tid not in ok:
            names = {t.id: t.name for ts in self.table.values() for t in ts}
            raise Bad(f"{node['_type']} (subtype {node.get('subtype')}, tags {node.get('tags')}, parent {(node.get('parent') or {}).get('_type')}) "
                      f"rendered with {names.get(tid, 'a template that is not configured')!r} [{tid}] instead of {sorted(ok.values())}")  # fmt: skip
        inner = anc + [node]
        for n, (kind, field, _) in enumerate(FIELDS):
            if n:
                self.expect("\u00a6", node)
            v = node.get(field)
            if kind == "value":
                if field in node:
                    self.expect(str(v), node)
            elif kind == "nodes":
                self.nodes(v or [], inner)
            elif kind == "data" and v:
                self.nodes(v.get("content") or [], inner + [v])
            elif kind == "node" and v:
                self.node(v, inner)
            elif kind == "map" and isinstance(v, dict):
                for x in v.values():
                    self.node(x, inner)
        self.expect(CLOSE, node)

    def nodes(self, seq, anc):
        for n, x in enumerate(seq):
            if n:
                self.space()
            self.node(x, anc)


def missing(node, anc, table, prefixes):
    """A node below (or) this one that nothing can render."""
    if not allowed(node, anc, table, prefixes, {}):
        return node["_type"]
    inner = anc + [node]
    for kind, field, _ in FIELDS:
        v = node.get(field)
        subs, via = [], inner
        if kind == "nodes":
            subs = v or []
        elif kind == "data" and v:
            subs, via = v.get("content") or [], inner + [v]
        elif kind == "node" and v:
            subs = [v]
        elif kind == "map" and isinstance(v, dict):
            subs = list(v.values())
        for x in subs:
            m = missing(x, via, table, prefixes)
            if m:
                return m
    return None


def judge(sc, run, tree, job, stats):
    table = table_for(sc, run)
    if table is None:
        stats["unreadable"] = 1
        if not is_failure(job):
            return ("missing-directory", {"run": run, "status": job["status"]})
        return None
    prefixes = run["templates"].get("prefixes", [])
    try:
        gone = missing(tree, [], table, prefixes)
        if gone:
            stats["unrenderable"] = 1
            if not is_failure(job):
                return ("rendered-without-template", {"run": run, "type": gone})
            if job["status"] != "mau-error":
                return ("no-template-error", {"type": gone, "error": job.get("error")})
            return None
        if job["status"] != "ok":
            return ("template-not-found", {"run": run, "error": str(job.get("error"))[:1500]})
        r = Reader(job["out"][0], table, prefixes, stats)
        r.node(tree, [])
        r.space()
        if r.i != len(r.s):
            raise Bad(f"unexpected output {r.s[r.i : r.i + 80]!r}")
    except Unknown:
        stats["unknown"] = 1
    except Bad as e:
        return ("wrong-template", {"run": run, "what": str(e)})
    return None


def check(sc, ex):
    proj = sc["proj"]
    base = {"id": "b", "kind": "compile", "file": proj["main"], "config": proj["config"], "vars": proj["vars"], "visitors": ["base"]}
    ref = ex({"files": proj["files"], "phases": [{"jobs": [base]}]})["jobs"]["b"]
    if ref["status"] != "ok":
        ex.probe("document_fails")
        return []
    tree = revive(ref["out"][0], [])
    # The tree is never empty.
    if not isinstance(tree, dict) or "_type" not in tree:
        ex.probe("empty_document")
        return []
    spec = {"files": proj["files"], "defaults": {sc["vis"]: sc["defaults"]}, "providers": sc["providers"]}

    def job(i):
        return {**base, "id": f"r{i}", "visitors": [sc["vis"]], "config": {**proj["config"], "visitor": {"templates": sc["runs"][i]["templates"]}}}

    jobs = [job(i) for i in range(len(sc["runs"]))]
    bad, stats = [], {}
    first = ex({**spec, "phases": [{"jobs": [j]} for j in jobs], "lines": bool(sc["switches"])})
    for i, run in enumerate(sc["runs"]):
        b = judge(sc, run, tree, first["jobs"][f"r{i}"], stats)
        if b:
            bad.append(b)
    for k in stats:
        ex.probe(k)
    if stats.get("competed"):
        ex.nontrivial(sc["proj"]["files"], sc["runs"], sc["defaults"], sc["providers"])
    for h in sc["hosts"]:
        phases = [{"jobs": [j]} for j in jobs]
        if len(jobs) > 1 and sc["switches"]:
            n = len(jobs)
            sw = [[t % n, step_at(p, profile(first, jobs[t % n]["id"])), to % n] for t, p, to in sc["switches"]]
            phases = [{"jobs": jobs, "switches": sw}]
            ex.probe("concurrent")
        res = ex({**spec, "opts": h, "phases": phases}, hashseed=h["listing"] % 4)
        ex.nontrivial(sc["proj"]["files"], sc["runs"], h)
        for i, run in enumerate(sc["runs"]):
            b = judge(sc, run, tree, res["jobs"][f"r{i}"], {})
            if b:
                bad.append((b[0], {**b[1], "host": h}))
    for f in sc["faults"]:
        i = f["run"]
        # Operations on the template directories of that run.
        roots = [p.removeprefix("./").rstrip("/") for p in sc["runs"][i]["templates"].get("paths", [])]
        ops = [h for h in first["history"] if h["t"] == f"r{i}" and h.get("path") and any(h["path"] == r or h["path"].startswith(r + "/") for r in roots)]
        if not ops:
            continue
        op = ops[place(f["ppm"], len(ops))]
        kinds = FILE_FAULTS.get(op["op"], ["eio"])
        if op["op"] == "open":
            kinds = kinds + ["interrupt", "memory"]
        j = {**jobs[i], "faults": [{"op": "any", "n": op["n"], "kind": kinds[f["pick"] % len(kinds)]}]}
        res = ex({**spec, "phases": [{"jobs": [j]}]})
        if res["fired"]:
            ex.probe("fault_" + op["op"])
            ex.nontrivial(sc["proj"]["files"], sc["runs"][i], res["fired"])
        got = res["jobs"][f"r{i}"]
        if is_failure(got):
            continue
        b = judge(sc, sc["runs"][i], tree, got, {})
        if b or diff(got["out"], first["jobs"][f"r{i}"].get("out")):
            bad.append(("silent-fallback", {"fired": res["fired"], "what": b or diff(got["out"], first["jobs"][f"r{i}"].get("out"))}))
    return bad
