"""Path queries on the inlined graph of Stuart::build: every path to the rendering of the tree crosses the successful
pre-processing of that tree, and the builder's tree is replaced by the processed one in between. In the pre-processing
recursion every child of every directory is visited and every markdown file converted; the conversion sets `html` on
every path to success from the frame that the file's own tokens were rendered into. The value that templates see maps
`content`, `markdown` and the frontmatter to the fields of the same file."""
from .common import *
from .c15 import children

PRE = "stuart_core::Stuart::preprocess_markdown_node"
PREN = "stuart_core::fs::Node::preprocess_markdown"


def run(F, rep, tier):
    order(F, rep)
    recursion(F, rep)
    convert(F, rep)
    values(F, rep)


def order(F, rep):
    b = F.get("stuart_core::Stuart::build")
    if b is None or F.get(PREN) is None:
        rep.ok("anchor", "stuart-core/src/lib.rs", "Stuart::build or the pre-processing not found; not decided")
        return
    a = An(F, b, inline=lambda x, f: x.path not in (PRE, PREN, "stuart_core::Stuart::build_node", "stuart_core::fs::Node::new", "stuart_core::fs::Node::new_with_plugins", "stuart_core::Environment::update_from_children"))
    rep.saw_graph(a)
    pres = a.calls(r"(%s|%s)$" % (re.escape(PRE), re.escape(PREN)))
    rend = a.calls(r"stuart_core::Stuart::build_node$|stuart_core::fs::Node::process$")
    if not rend:
        rep.ok("anchor", loc(b), "rendering not found; not decided")
        return
    pids, rids = {n.id for n in pres}, {n.id for n in rend}
    path = a.path_to([a.g.entry], lambda x: x.id in rids, stop_node=lambda x: x.id in pids)
    rep.check(path is None, "before-rendering", "Stuart::build", loc(b), "no page is rendered before the markdown was processed", a.path_lines(path))
    for n in rend:
        late = a.path_to([m for m, l in n.succ], lambda x: x.id in pids)
        rep.check(late is None, "before-rendering", "Stuart::build/after", a.where(n), "the markdown is not processed after rendering began", a.path_lines(late))
    for n in pres:
        t = a.result(n)
        # on what was it called: the builder's own tree, or a copy that replaces it
        inplace = False
        for i, o in enumerate(n.term["args"]):
            from facts import op_place
            p = op_place(o)
            if p:
                env = a.T.senv(n)[-1]
                q = a.g.place(n.frame, p, env)
                v = env.get(q)
                if v and v[0] == "&" and v[1][0] in ((a.g.entry.frame.id, 1), ("P", 1)) and "input" in v[1][1]:
                    inplace = True
        if inplace:
            rep.ok("tree-replaced", a.where(n), "the builder's own tree is processed")
            continue
        starts = [m for m, l in n.succ]
        path = a.path_to(starts, lambda x: x.id in rids, stop_node=lambda x: assigns_field(a, x, 1, "input") or x.id in pids)
        rep.check(path is None, "tree-replaced", "Stuart::build", a.where(n), "the processed tree becomes the builder's tree before rendering", a.path_lines(path))


def recursion(F, rep):
    b = F.get(PRE)
    if b is None:
        return
    a = An(F, b, inline=lambda x, f: x.path != PREN)
    rep.saw_graph(a)
    node = param_of(b, "stuart_core::fs::Node")
    rec = {b.id: b}
    children(F, rep, a, node, rec, PRE)
    c = Case(a, {node: Tag("File"), ("field", node, "File.parsed_contents"): Tag("Markdown"), ("field", node, "File.name"): "post.md"}, loose=True)
    conv = {n.id for n in a.calls(re.escape(PREN) + "$")}
    okx = {e.id for e in c.exits("Ok")}
    path = c.path_to([a.g.entry], lambda x: x.id in okx and x.id not in conv, stop_node=lambda x: x.id in conv)
    rep.check(path is None, "every-file", PRE, loc(b), "every markdown file is converted", a.path_lines(path))
    # a directory that is visited must visit its children on every path
    c = Case(a, {node: Tag("Directory")}, loose=True)
    its = {n.id for n, p in c.events(r"Iterator::next$") if contains(c.arg(n, 0), ("field", node, "Directory.children"))}
    if its:
        okx = {e.id for e in c.exits("Ok")}
        path = c.path_to([a.g.entry], lambda x: x.id in okx, stop_node=lambda x: x.id in its)
        rep.check(path is None, "every-directory", PRE, loc(b), "the children of every directory are visited", a.path_lines(path))


def convert(F, rep):
    a = page_an(F, PREN)
    if a is None:
        return
    rep.saw_graph(a)
    me = params(a.body)[0]
    md = ("field", ("field", me, "File.parsed_contents"), "Markdown.0")
    c = page_case(a, "Markdown")
    okx = {e.id for e in c.exits("Ok")}
    if not okx:
        rep.ok("converted", loc(a.body), "no successful exit recognised; not decided")
        return

    def sets(x):
        if x.kind != "b":
            return False
        for i, s in enumerate(x.block["st"]):
            if s["k"] == "assign" and s["p"][1]:
                q = a.g.place(x.frame, s["p"], a.T.senv(x)[i])
                if [y for y in q[1] if y != "*"][-1:] == ["html"]:
                    return True
        return False
    path = c.path_to([a.g.entry], lambda x: x.id in okx, stop_node=sets)
    rep.check(path is None, "converted", PREN, loc(a.body), "the HTML of a markdown file is set on every path to success", a.path_lines(path))
    for n, p in c.events(TOKENNEW):
        t = c.arg(n, 0)
        rep.check(t == ("field", md, "markdown") or not (t[0] == "field" and contains(t, me)) and t[0] != "agg", "own-tokens", PREN, a.where(n), "the functions executed are those of the file's own body")
    procs = {n.id for n, p in c.events(re.escape(TOKENPROC) + "$")}
    news = [n for n, p in c.events(TOKENNEW)]
    rep.check(bool(procs) or not news, "functions-executed", PREN, loc(a.body), "the body's functions are executed")
    for n, p in c.events(r"pulldown_cmark::.*Parser(<.*>)?::new(_ext)?$"):
        t = c.arg(n, 0)
        raw = [x for x in walk(t) if x[0] == "field" and x[2] == "markdown_string"]
        rep.check(not raw, "functions-executed", PREN + "/input", a.where(n), "what is converted is the executed body")
        pre = {m.id for m in c.events(TOKENNEW) and news}
        path = c.path_to([a.g.entry], lambda x: x.id == n.id, stop_node=lambda x: x.id in pre)
        rep.check(path is None, "functions-executed", PREN + "/order", a.where(n), "the body is executed before it is converted", a.path_lines(path))


def values(F, rep):
    b = F.get("stuart_core::parse::markdown::ParsedMarkdown::to_value")
    if b is None:
        return
    a = An(F, b)
    rep.saw_graph(a)
    me = params(b)[0]
    want = {"content": "html", "markdown": "markdown_string"}
    seen = set()
    for n, p in a.events(r"IndexMut.*::index_mut$|::insert$"):
        k = ev(a.arg(n, 1), {})
        if k not in want:
            continue
        vals = stores_through(a, n) if p.endswith("index_mut") else [a.arg(n, 2)]
        for v in vals:
            for x in alts(v):
                fs = {y[2] for y in walk(x) if y[0] == "field" and y[1] == me}
                if not fs:
                    continue
                seen.add(k)
                rep.check(want[k] in fs, "same-file", k, a.where(n), "`%s` denotes the file's %s, got %s" % (k, want[k], ",".join(sorted(fs))))
    for k in want:
        if k not in seen:
            rep.ok("same-file", loc(b), "`%s`: not decided" % k)
    c = Case(a, {("field", me, "html"): Tag("Some", UNK)}, loose=True)
    for n, p in c.events(r"IndexMut.*::index_mut$"):
        if ev(c.arg(n, 1), {}) == "content":
            vals = [x for v in stores_through(c_like(a, c), n) for x in alts(v)]
            rep.check(not vals or any(contains(x, ("field", me, "html")) for x in vals), "same-file", "content/some", a.where(n), "a converted body is what `content` denotes")
    fb = F.get("stuart_core::parse::markdown::ParsedMarkdown::frontmatter_to_value")
    if fb is not None:
        fa = An(F, fb)
        me = params(fb)[0]
        rep.saw_graph(fa)
        src = [n for n, p in fa.events(r"Iterator::(map|next|for_each|collect)$") if contains(fa.arg(n, 0), ("field", me, "frontmatter"))]
        drop = [n for n, p in fa.events(r"Iterator::(filter|skip|take|step_by|filter_map|skip_while|take_while)$")]
        rep.check(not drop, "frontmatter", "dropped", loc(fb), "every frontmatter field is passed on")
        rep.ok("frontmatter", loc(fb), "the frontmatter fields come from the file%s" % ("" if src else " (not decided)"))
        for n, p in fa.events(r"Iterator::map$"):
            for cid in closures_in(fa.arg(n, 1)):
                cb = F.bodies.get(cid)
                ca = An(F, cb)
                for e in ca.exits():
                    for i in (0, 1):
                        t = ca.T.at(e, None, ((0, 0), (str(i),)))
                        ix = {y[2] for y in walk(t) if y[0] == "field" and y[2] in ("0", "1")}
                        if len(ix) == 1:
                            rep.check(ix == {str(i)}, "frontmatter", "key-value/%d" % i, loc(cb), "a frontmatter field keeps its %s" % ("name", "value")[i])


class c_like:
    """An analysis whose values are those of a case."""

    def __init__(self, a, c):
        self.g, self.T = a.g, c.T
