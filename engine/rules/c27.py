"""Conditional constant propagation over the export of the metadata, in the library and in the build, under both values of
`save_metadata`: with it off nothing is written, the library call fails and the build does not reach it; with it on every
path to success writes, after the output was saved. Provenance of what is written: the site's name and author, every
child of every directory without a filter, each entry's own name, and the parsed data of the page, which must be kept by
the rendering of every kind of page that has data."""
from .common import *

SAVE = "stuart_core::Stuart::save_metadata"


def run(F, rep, tier):
    library(F, rep)
    build(F, rep)
    tree(F, rep)
    kept(F, rep)
    data(F, rep)


def library(F, rep):
    b = F.get(SAVE)
    if b is None:
        rep.ok("anchor", "stuart-core/src/lib.rs", "Stuart::save_metadata not found; not decided")
        return
    a = An(F, b)
    rep.saw_graph(a)
    me = params(b)[0]
    cfg = ("field", me, "config")
    flag = ("field", cfg, "save_metadata")
    writes = [n for n, p in a.events() if n.call[2] is None and effects.FS_MUT.search(p)]
    wids = {n.id for n in writes}
    rep.check(bool(writes), "writes", SAVE, loc(b), "metadata is written")
    off = Case(a, {flag: False})
    for n in writes:
        rep.check(not off.has(n), "disabled", SAVE + "/write", a.where(n), "nothing is written when metadata is off")
    oks = off.exits("Ok")
    p = off.path_to([a.g.entry], lambda x: x.id in {e.id for e in oks})
    rep.check(p is None, "disabled", SAVE + "/ok", loc(b), "asking for metadata that is off is an error", a.path_lines(p))
    on = Case(a, {flag: True, ("field", me, "output"): Tag("Some", UNK)}, loose=True)
    okx = {e.id for e in on.exits("Ok")}
    rep.check(bool(okx), "enabled", SAVE + "/possible", loc(b), "metadata can be exported when it is on")
    p = on.path_to([a.g.entry], lambda x: x.id in okx, stop_node=lambda x: x.id in wids)
    rep.check(p is None, "enabled", SAVE, loc(b), "every successful export writes the file", a.path_lines(p))
    # what is written
    for n in writes:
        for i in range(1, len(n.term["args"])):
            t = a.arg(n, i)
            for x in walk(t):
                o = jsonobj(x) if x[0] == "agg" else None
                if o is None:
                    continue
                for k in ("name", "author"):
                    other = "author" if k == "name" else "name"
                    if k in o:
                        v = o[k]
                        rep.check(contains(v, ("field", cfg, k)) or not contains(v, ("field", cfg, other)) and v[0] not in ("const",), "site", k, a.where(n), "`%s` is the site's %s" % (k, k))
                    elif contains(x, ("field", cfg, other)):
                        rep.bad("site", k, a.where(n), "the site's %s is not exported" % k)
                break
    for n, p in a.events(r"IndexMut.*::index_mut$"):
        if ev(a.arg(n, 1), {}) == "data" and n.frame is not None:
            rep.ok("data", a.where(n), "the tree is exported under `data`")


def build(F, rep):
    b = F.get(BUILD)
    if b is None:
        return
    a = An(F, b, inline=lambda x, f: x.krate == "stuart")
    rep.saw_graph(a)
    ms = a.calls(re.escape(SAVE) + "$")
    saves = a.calls(r"stuart_core::(Stuart::save|fs::Node::save)$")
    rep.check(bool(ms), "build", BUILD, loc(b), "the build exports the metadata")
    if not ms:
        return
    ids = {n.id for n in ms}
    flags = {x for n in a.g.nodes for m, l in n.succ if l for f in a.atoms(n, m, l) if isinstance(f[1], tuple) for x in walk(f[1]) if x[0] == "field" and x[2] == "save_metadata"}
    flags |= {f[1] for n in a.g.nodes for m, l in n.succ if l for f in a.atoms(n, m, l) if f[0] == "is" and f[1][0] == "phi" and any(x in flags for x in f[1][1])}
    if not flags:
        for n in ms:
            rep.bad("build", BUILD + "/flag", a.where(n), "the build exports the metadata without asking whether it is on")
        return
    off = Case(a, {f: False for f in flags})
    on = Case(a, {f: True for f in flags}, loose=True)
    for n in ms:
        rep.check(not off.has(n), "build", BUILD + "/off", a.where(n), "the build does not export metadata that is off")
        for e in saves:
            t = a.result(e)
            good = a.every_path_has(n, lambda f: has_variant(f, "Ok") and (f[1] == t or contains(f[1], t)))
            rep.check(good, "after-output", BUILD, a.where(n), "the metadata is written after the output was saved")
        rep.check(all(c == "metadata.json" for base, cs in pathparts(a.arg(n, 1)) for c in cs[-1:]), "file", BUILD, a.where(n), "the metadata is written to metadata.json")
    okx = {e.id for e in on.exits("Ok")}
    p = on.path_to([a.g.entry], lambda x: x.id in okx, stop_node=lambda x: x.id in ids)
    rep.check(p is None, "build", BUILD + "/on", loc(b), "every successful build exports the metadata when it is on", a.path_lines(p))


def tree(F, rep):
    b = F.get("stuart_core::fs::Node::save_metadata_recur")
    if b is None:
        rep.ok("every-entry", "stuart-core/src/fs/mod.rs", "recursion not found; not decided")
        return
    a = An(F, b)
    rep.saw_graph(a)
    me = params(b)[0]
    kids = ("field", me, "Directory.children")
    for n, p in a.events():
        if contains(a.arg(n, 0), kids) and DROPPING.search(p):
            rep.bad("every-entry", "recursion/" + last(p), a.where(n), "some children of a directory are not exported (%s)" % last(p))
    recs = [n for n, p in a.events() if n.call[2] is not None and n.call[2].id == b.id]
    rep.check(bool(recs), "every-entry", "recursion", loc(b), "the children of a directory are exported")
    its = [(n, a.result(n)) for n, p in a.events(r"Iterator::next$") if a.arg(n, 0) == kids]
    rids = {n.id for n in recs}
    for n, t in its:
        path = a.path_to([m for _, m, _ in a.edges(lambda f: has_variant(f, "Some") and f[1] == t)], lambda x: x.id == n.id or x.info == "exit", stop_node=lambda x: x.id in rids)
        rep.check(path is None, "every-entry", "recursion/loop", a.where(n), "every child of a directory is exported", a.path_lines(path))
    # recursion inside a closure: on every path through the closure
    for n in recs:
        f = n.frame
        if f.body.kind == "closure":
            ca = An(F, f.body, inline=lambda x, fr: x.id != b.id)
            cids = {m.id for m, p in ca.events() if m.call[2] is not None and m.call[2].id == b.id}
            path = ca.path_to([ca.g.entry], lambda x: x.info == "exit", stop_node=lambda x: x.id in cids)
            rep.check(path is None or not cids, "every-entry", "recursion/closure", loc(f.body), "every child of a directory is exported", ca.path_lines(path))
    first = next((p for i, p in enumerate(params(b), 1) if b.ty(i)["s"] == "bool"), None)
    for kind, own in (("Directory", "Directory.name"), ("File", "File.name")):
        env = {me: Tag(kind)}
        if first is not None:
            env[first] = False
        c = Case(a, env, loose=True)
        for e in c.exits():
            o = jsonobj(c.retf(e))
            if o is None:
                rep.ok("own-name", loc(b), "the entry of a %s was not recognised; not decided" % kind)
                continue
            rep.check("name" in o and contains(o["name"], ("field", me, own)) or "name" not in o and kind == "File" and False or o.get("name", ("x",))[0] not in ("const", "x"), "own-name", kind, loc(b), "the entry of a %s carries its own name" % kind)
            if kind == "Directory":
                v = o.get("children")
                rep.check(v is not None and not (v[0] == "agg" and v[1] == "array"), "every-entry", "children-key", loc(b), "the entry of a directory carries its children")
                if v is not None:
                    rep.check(uses(v, lambda y: y == kids) or not contains(v, me), "every-entry", "children-value", loc(b), "the children exported are the directory's own")
    c = Case(a, {me: Tag("File"), ("field", me, "File.metadata"): Tag("Some", UNK)}, loose=True)
    md = ("field", me, "File.metadata")
    sets = []
    for n, p in c.events(r"IndexMut.*::index_mut$|::insert$|Vec::push$|Extend.*::extend$"):
        if any(contains(c.arg(n, i), md) for i in range(len(n.term["args"]))) or any(contains(v, md) for v in (stores_through(a, n) if p.endswith("index_mut") else [])):
            sets.append(n)
    rets = [c.retf(e) for e in c.exits()]
    rep.check(bool(sets) or any(contains(t, md) for t in rets), "parsed-data", "File", loc(b), "the parsed data of a file is exported")
    for n, p in c.events():
        if DROPPING.search(p) and contains(c.arg(n, 0), md):
            rep.bad("parsed-data", "File/" + last(p), a.where(n), "parts of the parsed data of a file are not exported (%s)" % last(p))


def kept(F, rep):
    a = page_an(F)
    if a is None:
        return
    rep.saw_graph(a)
    me, proc = params(a.body)[0], param_of(a.body, "stuart_core::Stuart")
    flag = ("field", ("field", proc, "config"), "save_metadata")
    pc = ("field", me, "File.parsed_contents")
    for kind in ("Html", "Markdown", "Json", "Custom"):
        env = {me: Tag("File"), pc: Tag(kind), flag: True, ("field", me, "File.name"): {"Html": "page.html", "Markdown": "page.md", "Json": "data.json"}.get(kind, "a.foo")}
        c = Case(a, env, loose=True)
        for e in c.exits("Ok"):
            vs = [x for x in alts(c.retf(e, "Ok.0", "File.metadata"))]
            if kind == "Html":
                continue
            for x in vs:
                rep.check(not (x[0] == "agg" and x[1].endswith("::None")), "kept", kind, loc(a.body), "the data of a %s file is kept for the export" % kind)
                calls = [y for y in walk(x) if y[0] == "call" and y[1].endswith("::to_json")]
                for y in calls:
                    rep.check(contains(y, pc) or not contains(y, me), "kept", kind + "/own", loc(a.body), "the data kept is the file's own")


def data(F, rep):
    b = F.get("stuart_core::parse::contents::ParsedContents::to_json")
    if b is None:
        return
    a = An(F, b, inline=lambda x, f: "::markdown::" not in x.path)
    rep.saw_graph(a)
    me = params(b)[0]
    for kind in ("Markdown", "Json", "Custom"):
        c = Case(a, {me: Tag(kind)}, loose=True)
        for e in c.exits():
            v = a.exit_variants(e)
            rep.check(v != {"None"}, "has-data", kind, loc(b), "%s content has data" % kind)
            t = c.retf(e, "Some.0")
            if v == {"Some"}:
                rep.check(contains(t, me) or t[0] == "rec", "has-data", kind + "/own", loc(b), "the data of %s content is its own" % kind)
                o = jsonobj(t)
                if o is not None:
                    rep.check("value" in o and contains(o["value"], me), "has-data", kind + "/value", loc(b), "the data of %s content is exported under `value`" % kind)
                    ty = ev(o.get("type", ("unknown", "")), {})
                    rep.check(ty is UNK or ty == kind.lower(), "has-data", kind + "/type", loc(b), "%s content is exported as such" % kind)
