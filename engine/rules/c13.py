"""Conditional constant propagation over the function that updates the environment from the children of a directory: for
every class of child name, with and without an inherited template, the two template fields of the result may take the
child's tokens exactly when the name is that field's template name. Abstract evaluation of the same function on 52 combinations of
children (in several orders) and inherited templates gives exactly the template that should be in force; and so does that of the
building of one node: which templates it hands to each child, or to the page, for every class of directory name. The recursion must hand each directory's environment
(its own children applied to the one it was given, by value) to its children, and the rendering of a page must draw its
tokens from the page or the markdown template first and from the root template last, on every path to success."""
from .common import *
from graph import Graph, TooBig
from world import Lists, LEN, g, resolve
from frames import node

UFC = "stuart_core::Environment::update_from_children"
NAMES = ["root.html", "md.html", "index.html", "xroot.html", "root.html.html", "Root.html", "x.md.html", "md.htm", "root", "md", "root.md", "_root.html", "post.md", "root.html.bak"]
FIELDS = (("root", "root.html"), ("md", "md.html"))


R, M, I = ("root.html", "Html"), ("md.html", "Html"), ("index.html", "Html")
KIDS = [[], [I], [R], [M], [R, M], [M, R], [I, R], [R, I], [M, I], [I, M, R], [R, I, M], [("d", "dir"), R], [M, ("d", "dir"), I]]


def run(F, rep, tier):
    directories(F, rep)
    nodes(F, rep)
    update(F, rep)
    recursion(F, rep)
    pages(F, rep)


def update(F, rep):
    b = F.get(UFC)
    if b is None:
        rep.ok("anchor", "stuart-core/src/lib.rs", "update_from_children not found; not decided")
        return
    a = An(F, b)
    rep.saw_graph(a)
    ps = params(b)
    me, kids = ps[0], ps[1] if len(ps) > 1 else None
    els = {("field", a.result(n), "Some.0") for n, p in a.events(r"Iterator::(next|next_back)$") if contains(a.arg(n, 0), kids)}
    els |= {x for n in a.g.nodes for m, l in n.succ if l for f in a.atoms(n, m, l) for t in f[1:3] if isinstance(t, tuple) for x in walk(t) if x[0] == "hofarg" and contains(x, kids) and "fold" in x[1]}
    und = 0
    names = sorted(set(NAMES) | set(name_classes(name_constants(a, lambda t: any(t in (("field", e, "File.name"), ("field", e, "Directory.name")) for e in els)))))
    for name in names:
        for have in ((), ("root",), ("md",), ("root", "md")):
            env = {}
            for el in els:
                env.update({el: Tag("File"), ("field", el, "File.name"): name, ("field", el, "File.parsed_contents"): Tag("Html")})
            for f, n in FIELDS:
                env[("field", me, f)] = Tag("Some") if f in have else Tag("None")
            c = Case(a, env, loose=True)
            for f, tname in FIELDS:
                vals = [x for e in c.exits() for x in alts(c.retf(e, f))]
                mine = [x for x in vals if any(contains(x, el) for el in els)]
                inh, cls = f in have, "a child named %s with %s inherited" % (name, " and ".join(have) or "nothing")
                if els:
                    if name != tname:
                        rep.check(not mine, "template-name", "%s/%s" % (f, name), loc(b), "%s does not become the %s template" % (cls, f))
                    else:
                        rep.check(bool(mine), "template-name", "%s/%s%s" % (f, name, "/inherited" if inh else ""), loc(b), "%s becomes the %s template" % (cls, f))
                        bad = [x for x in mine if not uses(x, lambda t: t[0] == "field" and t[2] == "File.parsed_contents")]
                        und += len(bad)
                    other = [x for x in vals if contains(x, ("field", me, "md" if f == "root" else "root"))]
                    rep.check(not other, "never-swapped", "%s/%s" % (f, name), loc(b), "the %s template never comes from the other one's" % f)
                else:
                    for x in vals:
                        for cid in set(closures_in(x)):
                            r = closure_accepts(F, cid, name)
                            if r is None:
                                und += 1
                            elif r != (name == tname) and contains(x, kids):
                                rep.bad("template-name", "%s/%s" % (f, name), loc(b), "a child named %s %s the %s template" % (name, "becomes" if r else "does not become", f))
    rep.ok("template-name", loc(b), "%d classes of children decided, %d points not decided" % (len(names) * 4, und))


def recursion(F, rep):
    b = F.get("stuart_core::Stuart::build_node")
    if b is not None:
        a = An(F, b, inline=lambda x, f: x.path not in (UFC, "stuart_core::fs::Node::process"))
        rep.saw_graph(a)
        node, env = param_of(b, "stuart_core::fs::Node"), param_of(b, "stuart_core::Environment")
        kids = ("field", node, "Directory.children")
        rec = [n for n, p in a.events() if n.call[2] is not None and n.call[2].id == b.id]
        for n in rec:
            t = next((a.arg(n, i) for i in range(len(n.term["args"])) if uses(a.arg(n, i), lambda y: y == env or y[0] == "call" and y[1] == UFC)), None)
            if t is None:
                rep.ok("own-directory", a.where(n), "environment passed to the children not recognised; not decided")
                continue
            rep.check(t != env, "own-directory", b.path + "/children", a.where(n), "the children of a directory see the templates of that directory")
            for y in walk(t):
                if y[0] == "call" and y[1] == UFC:
                    src = y[2][1]
                    own = src == kids or contains(src, node) or src[0] in ("hofarg", "field")
                    rep.check(own, "own-directory", b.path + "/source", a.where(n), "the templates a directory sees come from its own children")
                    rep.check(not uses(y[2][0], lambda z: z[0] == "rec"), "by-value", b.path, a.where(n), "the environment of one child is not built on that of its sibling")
        if node:
            c = Case(a, {node: Tag("File")}, loose=True)
            for n, p in c.events(r"fs::Node::process$"):
                t = c.arg(n, 2)
                rep.check(not uses(t, lambda y: y[0] == "call" and y[1] == UFC) or uses(t, lambda y: y == kids or y[0] == "hofarg"), "own-directory", b.path + "/page", a.where(n), "a page is rendered with the environment of its directory")
    b = F.get("stuart_core::Stuart::build")
    if b is not None:
        a = An(F, b, inline=lambda x, f: x.path not in (UFC, "stuart_core::Stuart::build_node", "stuart_core::Stuart::preprocess_markdown_node", "stuart_core::fs::Node::new", "stuart_core::fs::Node::new_with_plugins"))
        rep.saw_graph(a)
        for n in a.calls(r"stuart_core::Stuart::build_node$"):
            for i in range(len(n.term["args"])):
                for y in walk(a.arg(n, i)):
                    if y[0] == "agg" and y[1] == "stuart_core::Environment":
                        for f, v in y[2]:
                            if f in ("root", "md"):
                                rep.check(all(x[0] == "agg" and x[1].endswith("::None") or not x[0] == "agg" for x in alts(v)), "starts-empty", f, a.where(n), "no template is in force above the content directory")


def pages(F, rep):
    a = page_an(F)
    if a is None:
        return
    rep.saw_graph(a)
    me = params(a.body)[0]
    envp = param_of(a.body, "stuart_core::Environment")
    root, md = ("field", envp, "root"), ("field", envp, "md")
    own = ("field", me, "File.parsed_contents")
    for kind, first, never in (("Html", own, md), ("Markdown", md, own)):
        c = page_case(a, kind)
        src = [(n, c.arg(n, 0)) for n, p in c.events(TOKENNEW)]
        roots = [n for n, t in src if contains(t, root)]
        firsts = [n for n, t in src if contains(t, first)]
        if not src:
            rep.ok("sources", loc(a.body), "token sources of a %s page not recognised; not decided" % kind)
            continue
        for n, t in src:
            rep.check(not contains(t, never), "sources", "%s/%s" % (kind, "md" if never == md else "own"), a.where(n), "the tokens of a %s page come from %s" % (kind, show(t)[:60]))
            rep.check(not (contains(t, root) and contains(t, md)), "sources", "%s/mixed" % kind, a.where(n), "the two templates never stand in for each other")
        okx = {e.id for e in c.exits("Ok")} or {e.id for e in c.exits()}
        rids, fids = {n.id for n in roots}, {n.id for n in firsts}
        for what, ids in (("root template", rids), ("page itself" if first == own else "markdown template", fids)):
            path = c.path_to([a.g.entry], lambda x: x.id in okx, stop_node=lambda x: x.id in ids)
            rep.check(path is None, "applied", "%s/%s" % (kind, what), loc(a.body), "a %s page is rendered through the %s" % (kind, what), a.path_lines(path))
        for n in roots:
            late = c.path_to(c.succ(n), lambda x: x.id in fids)
            rep.check(late is None, "order", kind, a.where(n), "the root template is rendered last", a.path_lines(late))


class Templates(Lists):
    """The world of one directory: the environment it is given and its children, each template's tokens told apart."""

    def __init__(self, F, have, kids):
        super().__init__(F)
        self.have, self.kids, self.ends = have, kids, []

    def start(self, G, env):
        b = G.root_body
        for i in range(1, b.argc + 1):
            ty = b.types[b.locals[i]["ty"]]["s"]
            base = ("P", i) if b.ty(i)["k"] in ("ref", "ptr") else (0, i)
            if re.search(r"\bEnvironment\b", ty):
                for f in ("root", "md"):
                    env[(base, (f,))] = ("v", "Some" if f in self.have else "None")
                    if f in self.have:
                        env[(base, (f, "Some.0"))] = ("&", (("INHERITED", f), ()), False)
            elif re.search(r"\bNode\b", ty):
                sub = {}
                kids = []
                for x, kind in self.kids:
                    k = node(x, kind, [] if kind == "dir" else None)
                    if kind == "Html":
                        k[("File.parsed_contents", "Html.0", LEN)] = ("c", 0)
                    kids.append(k)
                env.update({(base, k): v for k, v in self.made(kids).items()})

    def told(self, v, w):
        if v and v[0] == "v" and v[1] == "None":
            return "none"
        if v and v[0] == "v" and w and w[0] == "&":
            root, proj = w[1]
            if root[0] == "INHERITED":
                return "inherited " + root[1]
            i = next((p for p in proj if re.fullmatch(r"\[\d+\]", p)), None)
            return "child " + self.kids[int(i[1:-1])][0] if i else None
        return None

    def exit(self, G, n, env):
        out = {f: self.told(env.get(((0, 0), (f,))), env.get(((0, 0), (f, "Some.0")))) for f in ("root", "md")}
        self.ends.append((out, bool(g(env, "lost"))))


class Handed(Templates):
    """The world of building one node: which templates are handed to its children, or to the page itself."""

    def __init__(self, F, have, kids, name, file):
        super().__init__(F, have, kids)
        self.name, self.file, self.handed = name, file, {}

    def start(self, G, env):
        super().start(G, env)
        b = G.root_body
        for i in range(1, b.argc + 1):
            ty = b.types[b.locals[i]["ty"]]["s"]
            if re.search(r"\bNode\b", ty):
                base = ("P", i) if b.ty(i)["k"] in ("ref", "ptr") else (0, i)
                for k in [k for k in env if k[0] == base]:
                    del env[k]
                kids = [node(x, kind, [] if kind == "dir" else None) for x, kind in self.kids]
                for k in kids:
                    if k.get(("File.parsed_contents",)) == ("v", "Html"):
                        k[("File.parsed_contents", "Html.0", LEN)] = ("c", 0)
                sub = node(self.name, "Html") if self.file else {(): ("v", "Directory"), ("Directory.name",): ("c", "s:" + self.name)}
                if not self.file:
                    sub.update({("Directory.children",) + k: v for k, v in self.made(kids).items()})
                env.update({(base, k): v for k, v in sub.items()})

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path in ("stuart_core::Stuart::build_node", "stuart_core::fs::Node::process"):
            got = {}
            for x, a in zip(v, A):
                w, pl = resolve(env, x) if x and x[0] == "&" else (None, None)
                a = {k[1]: y for k, y in env.items() if pl and k[0] == pl[0] and k[1][:len(pl[1])] == pl[1]} if pl else a
                for f in ("root", "md"):
                    if (f,) in a:
                        got[f] = self.told(a.get((f,)), a.get((f, "Some.0")))
            self.handed.setdefault((last(path), got.get("root"), got.get("md"), bool(g(env, "lost"))), n)
            return [({(): ("v", "Ok")}, {})]
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def exit(self, G, n, env):
        pass


def nodes(F, rep):
    b = F.get("stuart_core::Stuart::build_node")
    if b is None:
        return
    a = An(F, b)
    names = ["d", "_d", ".d", "d.md", "posts", "content", "static", "_drafts", "index", ""]
    names += [x for x in name_classes(name_constants(a, lambda t: t[0] == "field" and t[2].endswith(".name"))) if x not in names]
    und = n = 0
    for file in (False, True):
        for kids in ([], [I], [R], [R, M, I]) if not file else ([],):
            for have in ((), ("root",), ("md",), ("root", "md")):
                for name in names:
                    w = Handed(F, have, kids + ([("sub", "dir")] if not file else []), name + (".html" if file else ""), file)
                    try:
                        G = Graph(F, b, world=w, widen=2000, max_nodes=20000, inline=lambda x, f: x.krate == "stuart_core")
                    except TooBig:
                        und += 1
                        continue
                    n += 1
                    own = [x for x, k in kids if k == "Html"]
                    want = ["child " + t if t in own else "inherited " + f if f in have else "none" for f, t in FIELDS]
                    if not w.handed or any(None in k[1:3] or k[3] for k in w.handed):
                        und += 1
                        continue
                    for (who, r, md, lost), at in w.handed.items():
                        rep.check([r, md] == want, "handed", "%s/%s/%s/%s" % (name or "empty", "page" if file else "directory", "+".join(own) or "none", "+".join(have) or "none"), at.loc(),
                                  "%s %r with %s and %s inherited: %s gets as root template %s and as markdown template %s" % ("the page" if file else "the directory", w.name, ", ".join(own) or "no templates", " and ".join(have) or "nothing", "it" if file else "each child", r, md))
    rep.ok("handed", loc(b), "%d nodes evaluated, %d points not decided" % (n, und))


def directories(F, rep):
    b = F.get(UFC)
    if b is None:
        return
    und = n = 0
    for kids in KIDS:
        for have in ((), ("root",), ("md",), ("root", "md")):
            w = Templates(F, have, kids)
            try:
                G = Graph(F, b, world=w, widen=2000, max_nodes=20000, inline=lambda x, f: x.krate == "stuart_core")
            except TooBig:
                und += 1
                continue
            n += 1
            names = [x for x, k in kids if k == "Html"]
            for f, t in FIELDS:
                want = "child " + t if t in names else "inherited " + f if f in have else "none"
                got = {o[f] for o, lost in w.ends}
                if not got or None in got or any(lost for o, lost in w.ends):
                    und += 1
                    continue
                rep.check(got == {want}, "directory", "%s/%s/%s" % (f, "+".join(names) or "none", "+".join(have) or "none"), loc(b),
                          "with the children %s and %s inherited, the %s template in force is %s" % (", ".join(names) or "(none)", " and ".join(have) or "nothing", f, " or ".join(sorted(got))))
    rep.ok("directory", loc(b), "%d directories evaluated, %d points not decided" % (n, und))
