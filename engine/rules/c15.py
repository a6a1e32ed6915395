"""Conditional constant propagation over the function that writes one node of the output tree. For every class of file
(name, whether it is static, the two settings) the branch facts on the graph are evaluated under that class; the set of
file-creating calls that remain reachable must be empty for a file that is not published, and otherwise every path to
success must cross one whose path evaluates to the published name and whose data is the node's contents. The recursion
over directories and the construction of output and static nodes are checked by provenance."""
from .common import *
from ceval import Walk, Case, ev, Tag, UNK

NAMES = ["root.html", "md.html", "index.html", "page.html", "data.json", "style.css", "noext", "a.json.html", "root.html.css", "x.html.json", "xroot.html",
         "root.htm", "md.html.bak", "page.htm", "json", "my.index.html", "html", "page.md", "data.json5", "rootxhtml", "root", "a.html.html"]


def expected(name, ignored, strip, data):
    if ignored:
        return name
    if name in ("root.html", "md.html") or (name.endswith(".json") and not data):
        return None
    if strip and name.endswith(".html") and name != "index.html":
        return (name[:-5] + "/index.html").lstrip("/")
    return name


def creations(a):
    """[(node, path operand, data terms)] for the calls that create a file."""
    out = []
    for n, p in a.events():
        if n.call[2] is not None or not effects.FS_MUT.search(p):
            continue
        k = last(p)
        if p.endswith("fs::write"):
            out.append((n, 0, [a.arg(n, 1)]))
        elif p.endswith(("OpenOptions::open", "File::create", "File::create_new")):
            t = a.result(n)
            data = [a.arg(m, 1) for m, q in a.events(r"io::Write::(write_all|write|write_fmt)$|impls::.*Write.*::write_all$|::write_all$") if contains(a.arg(m, 0), t)]
            out.append((n, 1 if "OpenOptions" in p else 0, data))
    return out


def run(F, rep, tier):
    save = F.get("stuart_core::fs::Node::save")
    if save is None:
        rep.bad("anchor", "Node::save", "stuart-core/src/fs/mod.rs", "Node::save not found")
        return
    top = An(F, save)
    rep.saw_graph(top)
    rec = {n.call[2].id: n.call[2] for n, p in top.events() if n.call[2] is not None}
    for rb in list(rec.values()) or [save]:
        writer(F, rep, rb)
    children(F, rep, top, ("param", 1, save.locals[1].get("name") or "_1"), rec, "save")
    nodes(F, rep)


def children(F, rep, a, N, rec, who, walk=None):
    """Every child of the directory N is passed to the recursive function."""
    if not rec:
        return
    kids = ("field", N, "Directory.children")
    calls = [n for n, p in a.events() if n.call[2] is not None and n.call[2].id in rec] + [n for n in a.entries("") if n.call[2].id in rec]
    ids = {n.id for n in calls}
    its = [(n, a.arg(n, 0)) for n, p in a.events(r"Iterator::next$") if contains(a.arg(n, 0), kids)]
    for n, src in its:
        if src == kids:
            el = ("field", a.result(n), "Some.0")
            some = a.edges(lambda f: has_variant(f, "Some") and f[1] == a.result(n))
            ok = {e.id for e in a.exits("Ok")} | {n.id}
            path = a.path_to([m for _, m, _ in some], lambda x: x.id in ok, stop_node=lambda x: x.id in ids)
            rep.check(path is None, "every-child", who, a.where(n), "every child of a directory is saved", a.path_lines(path))
            for c in calls:
                t = a.arg(c, N[1] - 1 if N[0] == "param" and n.frame is a.g.entry.frame else 0)
                if contains(t, el) and not (t[0] == "field" and t[2] == "Some.0" and t[1][0] == "call" and last(t[1][1]) == "next"):
                    rep.check(a.arg(c, 0) == el, "every-child", who + "/arg", a.where(c), "the child itself is saved")
        elif uses(src, lambda t: t[0] == "call" and last(t[1]) in ("filter", "skip", "take", "skip_while", "take_while", "step_by", "filter_map")):
            rep.bad("every-child", who + "/filtered", a.where(n), "some children of a directory are left out")
    if not its:
        rep.ok("every-child", loc(a.body), "iteration over the children not recognised; not decided")


def writer(F, rep, b):
    a = An(F, b)
    rep.saw_graph(a)
    ws = creations(a)
    rep.check(bool(ws), "anchor", "writes", loc(b), "%s creates files" % b.path)
    N = None
    for n, i, data in ws:
        for t in data:
            for x in alts(t):
                if x[0] == "field" and x[2] == "File.contents":
                    N = x[1]
                    rep.ok("contents", a.where(n), "the contents of the node are written")
                else:
                    rep.bad("contents", b.path + "/" + last(n.call[0]), a.where(n), "what is written is not the contents of the node: " + show(x)[:100])
    if N is None or N[0] != "param":
        rep.ok("published", loc(b), "the node being written was not recognised; not decided")
        return
    cfg = next((("param", i, b.locals[i].get("name") or "_%d" % i) for i in range(1, b.argc + 1) if "Config" in b.ty(i)["s"] or (b.ty(i)["k"] == "ref" and b.types[b.ty(i)["t"]].get("path", "").endswith("::Config"))), None)
    pbase = [("param", i, b.locals[i].get("name") or "_%d" % i) for i in range(1, b.argc + 1)]
    name_t, pc_t = ("field", N, "File.name"), ("field", N, "File.parsed_contents")
    ok_exits = {e.id for e in a.exits("Ok")} or {e.id for e in a.exits()}
    und = 0
    names = sorted(set(NAMES) | set(name_classes(name_constants(a, lambda t: t == name_t))))
    for name in names:
        for ignored in (False, True):
            for strip in (False, True):
                for data in (False, True):
                    env = {N: Tag("File"), name_t: name, pc_t: Tag("Ignored") if ignored else Tag("None")}
                    if cfg:
                        env[("field", cfg, "strip_extensions")] = strip
                        env[("field", cfg, "save_data_files")] = data
                    w = Walk(a, env)
                    want = expected(name, ignored, strip, data)
                    cls = "%s%s, strip_extensions %s, save_data_files %s" % ("static " if ignored else "", name, "on" if strip else "off", "on" if data else "off")
                    key = "%s/%s" % ("static" if ignored else "content", name)
                    sure = a.reach([a.g.entry], stop_edge=w.certain)
                    maybe = a.reach([a.g.entry], stop_edge=w.possible)
                    got = [(n, i) for n, i, d in ws if n.id in sure]
                    und += bool(maybe - sure and any(n.id in maybe - sure for n, i, d in ws))
                    if want is None:
                        path = a.path_to([a.g.entry], lambda x: x.id in {n.id for n, i in got}, stop_edge=w.certain) if got else None
                        rep.check(not got, "not-published", key, loc(b), "%s is not published" % cls, a.path_lines(path))
                        continue
                    wid = {n.id for n, i, d in ws}
                    path = a.path_to([a.g.entry], lambda x: x.id in ok_exits, stop_node=lambda x: x.id in wid, stop_edge=w.certain)
                    rep.check(path is None, "published", key, loc(b), "%s is published" % cls, a.path_lines(path))
                    case = Case(a, env) if got else None
                    for n, i in got:
                        for base, comps in pathparts(case.arg(n, i)):
                            vs = [c if isinstance(c, str) else comp(c, env) for c in comps]
                            if base in pbase and base != N and UNK not in vs:
                                p = "/".join(x for x in vs if x != "")
                                rep.check(p == want, "published-name", key, a.where(n), "%s is published as %s%s" % (cls, want, "" if p == want else ", not as " + p))
                            else:
                                und += 1
    rep.ok("classes", loc(b), "%d classes of files; %d not fully decided" % (len(names) * 8, und))
    # directories
    rec = {n.call[2].id: n.call[2] for n, p in a.events() if n.call[2] is not None}
    children(F, rep, a, N, rec, b.path)
    env = {N: Tag("Directory"), ("field", N, "Directory.name"): "DIR"}
    w = Walk(a, env)
    sure = a.reach([a.g.entry], stop_edge=w.certain)
    for n, p in a.events():
        if n.id in sure and n.call[2] is not None and n.call[2].id in rec:
            for i in range(1, len(n.term["args"])):
                ps = pathparts(a.arg(n, i))
                if any(base in pbase and cs for base, cs in ps) or a.arg(n, i) in pbase and a.arg(n, i) != cfg:
                    for base, cs in ps:
                        vs = [c if isinstance(c, str) else comp(c, env) for c in cs]
                        rep.check("/".join(map(str, vs)) == "DIR" or UNK in vs, "directory-name", b.path, a.where(n), "a directory is saved under its own name")


def comp(c, env):
    if isinstance(c, tuple) and c and c[0] == "fmt":
        out = ""
        for p in c[1:]:
            v = p if isinstance(p, str) else ev(p, env)
            if not isinstance(v, str):
                return UNK
            out += v
        return out
    v = ev(c, env)
    return v if isinstance(v, str) else UNK


def nodes(F, rep):
    """How the nodes that are saved come about."""
    b = F.get("stuart_core::fs::Node::process")
    if b is not None:
        a = An(F, b, inline=lambda x, f: not x.path.startswith("stuart_core::process::") or "impl" in x.path)
        rep.saw_graph(a)
        me = ("param", 1, b.locals[1].get("name") or "_1")
        for e in a.exits("Ok"):
            for t in alts(retf(a, e, "Ok.0", "File.parsed_contents")):
                rep.check(not (t[0] == "agg" and t[1].endswith("::Ignored")), "rendered-not-static", "Node::process", loc(b), "a rendered file is not marked as static")
            for f, own in (("File.name", "name"), ("File.contents", "contents")):
                for t in alts(retf(a, e, "Ok.0", f)):
                    new = uses(t, lambda x: x[0] == "field" and x[2] == "new_" + own)
                    mine = uses(t, lambda x: x[0] == "field" and x[1] == me and x[2].endswith("." + own))
                    if t[0] in ("const", "bytes"):
                        rep.bad("own-" + own, "Node::process", loc(b), "the %s of an output file is a constant" % own)
                    else:
                        rep.ok("own-" + own, loc(b), "the %s of an output file is its own or the rendered one%s" % (own, "" if new or mine else " (not decided)"))
        outputs(F, rep)
    for path, parse in (("stuart_core::fs::Node::create_from_file", None),):
        b = F.get(path)
        if b is None:
            continue
        a = An(F, b, inline=lambda x, f: x.path.startswith("stuart_core::fs"))
        rep.saw_graph(a)
        p = next((("param", i, b.locals[i].get("name") or "_%d" % i) for i in range(1, b.argc + 1) if b.ty(i)["s"] == "bool"), None)
        for val, what in ((True, "content"), (False, "static")):
            w = Walk(a, {p: val} if p else {})
            sure = a.reach([a.g.entry], stop_edge=w.certain)
            for e in a.exits("Ok"):
                if e.id in sure and p:
                    for t in alts(retf(a, e, "Ok.0", "File.parsed_contents")):
                        ig = t[0] == "agg" and t[1].endswith("::Ignored")
                        rep.check(ig == (not val) or t[0] != "agg", "static-is-ignored", "create_from_file/" + what, loc(b), "a %s file is %smarked as static" % (what, "not " if val else ""))
        for e in a.exits("Ok"):
            c, nm = retf(a, e, "Ok.0", "File.contents"), retf(a, e, "Ok.0", "File.name")
            filled = any(t[0] == "upd" and re.search(r"::(read_to_end|read_exact|extend|extend_from_slice|write_all|append)$|io::copy$", t[1]) for t in alts(c))
            rep.check(all(t[0] == "field" and t[1][0] == "call" and t[1][1].endswith("fs::read") or filled and t[0] == "call" and last(t[1]) in ("new", "with_capacity", "default") or t[0] not in ("field", "const", "bytes", "call") for t in alts(c)), "original-bytes", "create_from_file", loc(b), "a file's contents are the bytes read")
            cut = sorted({last(t[1]) for t in alts(c) if t[0] == "upd" and re.search(r"::Vec.*::(drain|truncate|retain|retain_mut|pop|remove|swap_remove|dedup\w*|splice|insert|split_off)$|slice.*::(reverse|fill|sort\w*|swap|make_ascii_\w+)$", t[1])})
            rep.check(not cut, "original-bytes", "create_from_file/changed", loc(b), "the bytes read are not changed by `%s`" % "`, `".join(cut))
            rep.check(all(uses(t, lambda x: x[0] == "call" and last(x[1]) == "file_name") or t[0] == "phi" for t in alts(nm)), "original-name", "create_from_file", loc(b), "a file's name is its file name")
    for path, want, pat in ((BUILD, False, r"stuart_core::fs::Node::(new|new_with_plugins)$"), ("stuart_core::Stuart::build", True, r"stuart_core::fs::Node::(new|new_with_plugins)$")):
        b = F.get(path)
        if b is None:
            continue
        a = An(F, b, inline=lambda x, f: not x.path.startswith(("stuart_core::fs::Node::new", "stuart_core::Stuart::build", "stuart_core::Stuart::save")) and x.krate == b.krate and x.path != "stuart_core::Stuart::build_node")
        for n in a.calls(pat):
            t = a.arg(n, 1)
            rep.check(t == ("const", want) or t[0] != "const", "static-is-ignored", path, a.where(n), "the tree read here is %s" % ("content" if want else "static"))


def outputs(F, rep):
    """The name and contents a rendered page gets."""
    for fn, samples in (("process_html", {"page.html": None, "index.html": None}), ("process_markdown", {"post.md": "post.html", "a.md.md": "a.md.html"})):
        for b in [x for x in F.local if x.path == "stuart_core::fs::Node::" + fn or x.path.endswith("Node::" + fn) or x.path.endswith(">::" + fn)]:
            a = An(F, b, inline=lambda x, f: False)
            rep.saw_graph(a)
            for e in a.exits("Ok"):
                t = retf(a, e, "Ok.0", "new_name")
                for s, want in samples.items():
                    env = {x: s for x in walk(t) if x[0] == "call" and x[1].endswith("Node::name") or x[0] == "field" and x[2] == "File.name"}
                    v = ev(t, env)
                    got = v.vals[0] if isinstance(v, Tag) and v.name == "Some" and v.vals else None if isinstance(v, Tag) and v.name == "None" else UNK
                    rep.check(got is UNK or got == want or (got == s and want is None), "rendered-name", "%s/%s" % (fn, s), loc(b), "%s is rendered as %s%s" % (s, want or s, " (not decided)" if got is UNK else ""))
                c = retf(a, e, "Ok.0", "new_contents")
                for x in alts(c):
                    if x[0] == "agg" and x[1].endswith("::None"):
                        rep.bad("rendered-contents", fn, loc(b), "a page that was rendered keeps its source as contents")
