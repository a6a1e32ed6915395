"""Abstract interpretation on concrete scopes: a reference to something missing is given to every construct of the
template language (a variable no frame defines, a null value, a section no page made, a path that is not in a concrete
content tree or names something of the wrong kind, a page whose environment has no root or markdown template), next to
similar things that do exist. No path of the construct may reach success, or go on to the contents of its block."""
from .common import *
from world import Whole
from frames import *
from .c08 import NEVER, scope, cases, called, explored, inserted, key, show

SIMILAR = [("xmain", "decoy"), ("Main", "decoy"), ("mainx", "decoy"), ("main.html", "decoy"), ("m", "decoy")]


def run(F, rep, tier):
    variables(F, rep)
    fns = functions(F)
    sections(F, rep, fns.get("insert"))
    files(F, rep, fns.get("import"), fns.get("for"))
    operands(F, rep, fns)
    pages(F, rep)


def silent(F, rep, rule, b, w, k, what, where=None):
    """No path of b in this world may reach success."""
    if explored(F, rep, b, w, rule, 30000) is None:
        return
    ok = [1 for kind, env, lost in w.ends if kind == "Ok" and not lost]
    on = [n for env, lost, n in w.went if not lost]
    unk = [1 for kind, env, lost in w.ends if lost or kind not in ("Ok", "Err")] + [1 for _, lost, _ in w.went if lost]
    if ok or on:
        rep.bad(rule, k, on[0].loc() if on else loc(b), "%s: %s" % (what, "its block goes on" if on else "no error is reported"))
    elif unk:
        rep.ok(rule, loc(b), "%s: not determined on every path; not decided" % what)
    else:
        rep.ok(rule, loc(b), "%s: an error on every path" % what)


def variables(F, rep):
    b = F.get(TOKENPROC)
    if b is None:
        rep.ok("variable", TOKENPROC, "not found; not decided")
        return
    for ref, defs, want in cases():
        if want is NEVER or want is None:
            silent(F, rep, "variable", b, Scoped(F, scope(defs), inserted(ref)), key(ref, defs), show(ref, defs))
    for ref, var in (("x", {}), ("x.field", {"Field": "decoy", "fiel": "decoy"}), ("x.0", []), ("x.1.a", [{"a": "decoy"}]), ("x.length", ["decoy"]), ("x.0", "text")):
        if not ref == "x":
            silent(F, rep, "variable", b, Scoped(F, scope([NEVER, var, NEVER]), inserted(ref)), "%s/%s" % (ref, type(var).__name__), "`$%s` where x is %r" % (ref, var))
    silent(F, rep, "variable", b, Scoped(F, [("base", []), ("begin:main", [])], inserted("x")), "x/empty", "`$x` in a scope without variables")


def sections(F, rep, fn):
    if not fn or None in fn:
        rep.ok("section", "insert", "not recognised; not decided")
        return
    for label, similar in (("main", SIMILAR), ("main.aside", [(x, "decoy") for x in ("main", "aside", "main.", ".aside", "main.aside.x", "main.Aside", "main.asid")]), ("main/aside", [(x, "decoy") for x in ("main", "aside", "main/", "main.aside")]),
                           ("main-aside", [(x, "decoy") for x in ("main", "aside", "main-", "main_aside", "mainaside")]), ("", [("main", "decoy"), (" ", "decoy")]), ("main aside", [("main", "decoy"), ("aside", "decoy")])):
        fields = called(F, fn[0], [("String", label)])
        if fields is None:
            rep.ok("section", loc(fn[0]), "the parsed call is not determined; not decided")
            continue
        for st in ([("base", [("main", "decoy"), (label, "decoy")])], [("base", [("main", "decoy")]), ("ifdefined:main", [("aside", "decoy")])]):
            for secs, what in (((), "no section"), (similar, "only sections %s" % ", ".join(repr(a) for a, _ in similar))):
                silent(F, rep, "section", fn[1], Scoped(F, st, fields, secs), "%s/%s" % (label, "none" if not secs else "similar"), "inserting the section %r when the page made %s" % (label, what))
            # the one that exists is the one inserted
            w = Scoped(F, st, fields, similar[:1] + [(label, "M")] + similar[1:])
            if explored(F, rep, fn[1], w, "section") is None:
                return
            for kind, env, lost in w.ends:
                s = w.stack_of(env)
                if not lost and kind == "Ok" and s and s[-1][2] is not None and UNK_CH not in s[-1][2]:
                    rep.check(s[-1][2] == "M", "section", "%s/other" % label, loc(fn[1]), "inserting the section %r among similar names outputs %r" % (label, s[-1][2]))


def root():
    kids = [node("page.html", "Html"), node("data.json", "Json", ["J"]), node("post.md", "Markdown"), node("style.css", "None"), node("x.custom", "Custom"), node("secret", "Ignored"), node("other.json", "Json", {"a": "b"}),
            node("word.json", "Json", "text"), node("null.json", "Json", None)]
    sub = [node("inner.json", "Json", ["I"]), node("data.json", "Json", ["D"])]
    return node("content", "dir", kids + [node("dir", "dir", sub), node("odd.json", "dir", sub), node("empty", "dir", [])])


MISSING = [("nothing.json", "is not there"), ("inner.json", "is only in a subdirectory"), ("empty/data.json", "is only in the directory above"), ("dir/other.json", "is only in the directory above"), ("empty/inner.json", "is only in a sibling directory"), ("Data.json", "has another case"), ("data.jso", "is a prefix of a file's name"), ("dir/nothing.json", "is not in its directory"),
           ("nodir/data.json", "is in a directory that is not there"), ("data.json/x.json", "is inside a file")]


def files(F, rep, imp, loop):
    if imp and None not in imp:
        for p, why in MISSING + [("odd.json", "is a directory"), ("page.html", "is a page"), ("post.md", "is markdown"), ("style.css", "is a plain file"), ("x.custom", "is parsed by a plugin"), ("dir", "is a directory"), ("secret", "is ignored")]:
            fields = called(F, imp[0], [("Variable", "v"), ("String", p)])
            if fields is None:
                rep.ok("import", loc(imp[0]), "%s: the parsed call is not determined; not decided" % p)
                continue
            silent(F, rep, "import", imp[1], Scoped(F, [("base", [("x", "decoy")])], fields, tree=root()), p, "importing %r, which %s" % (p, why))
    else:
        rep.ok("import", "import", "not recognised; not decided")
    if not loop or None in loop:
        rep.ok("loop", "for", "not recognised; not decided")
        return
    for p, why in [x for x in MISSING if x[0].endswith(".json")] + [("odd.json", "is a directory"), ("other.json", "is an object"), ("word.json", "is a text"), ("null.json", "is null"),
                             ("nothing/", "is not there"), ("data.json/", "is a file"), ("page.html/", "is a page"), ("post.md/", "is a file"), ("dir/nothing/", "is not there"), ("Dir/", "has another case"), ("di/", "is a prefix of a directory's name"),
                             ("inner/", "is not there"), ("nothing/dir/", "is in a directory that is not there")]:
        fields = called(F, loop[0], [("Variable", "v"), ("String", p)])
        if fields is None:
            rep.ok("loop", loc(loop[0]), "%s: the parsed call is not determined; not decided" % p)
            continue
        silent(F, rep, "loop", loop[1], Scoped(F, [("base", [("x", "decoy")])], fields, tree=root()), p, "iterating over %r, which %s" % (p, why))
    for ref, var in (("x", NEVER), ("x", None), ("x", "text"), ("x", {"a": ["decoy"]}), ("x", True), ("x.field", NEVER), ("x.field", {"a": ["decoy"]}), ("x.field", {"field": None}), ("x.field", {"field": "text"}), ("x.field", ["decoy"]), ("x.0", [])):
        fields = called(F, loop[0], [("Variable", "v"), ("Variable", ref)])
        if fields is None:
            rep.ok("loop", loc(loop[0]), "the parsed call is not determined; not decided")
            continue
        st = [("base", [("v", ["decoy"]), ("xx", ["decoy"])] + ([] if var is NEVER else [("x", var)])), ("begin:main", [("field", ["decoy"])])]
        silent(F, rep, "loop", loop[1], Scoped(F, st, fields, tree=root()), "%s/%s" % (ref, "undefined" if var is NEVER else repr(var)), "iterating over `$%s` where x is %s" % (ref, "undefined" if var is NEVER else repr(var)))


def operands(F, rep, fns):
    for name, args in [("dateformat", [("Variable", "x"), ("String", "%Y")]), ("excerpt", [("Variable", "x"), ("Integer", 5)]), ("timetoread", [("Variable", "x")])] + \
            [(c, a) for c in ("ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle") for a in ([("Variable", "x"), ("String", "probe")], [("String", "probe"), ("Variable", "x")], [("Variable", "known"), ("Variable", "x")], [("Variable", "x"), ("Variable", "x")], [("Integer", 1), ("Variable", "x")])]:
        fn = fns.get(name)
        if not fn or None in fn:
            rep.ok("operand", name, "not recognised; not decided")
            continue
        fields = called(F, fn[0], args)
        if fields is None:
            rep.ok("operand", loc(fn[0]), "%s: the parsed call is not determined; not decided" % name)
            continue
        shown = "%s(%s)" % (name, ", ".join("$" + v if k == "Variable" else repr(v) for k, v in args))
        st = [("base", [("known", "text"), ("xx", "decoy")]), ("begin:main", [("X", "decoy")])]
        silent(F, rep, "operand", fn[1], Scoped(F, st, fields), "%s/%s" % (name, "".join(k[0] for k, _ in args)), "%s where x is undefined" % shown)
        if name.startswith("if"):
            for v, word in ({"Field": "decoy", "fiel": "decoy"}, "an object without it"), (["decoy"], "a list"), ("text", "a text"):
                fl = called(F, fn[0], [(k, "x.field" if (k, y) == ("Variable", "x") else y) for k, y in args])
                if fl is not None:
                    silent(F, rep, "operand", fn[1], Scoped(F, st + [("ifeq", [("x", v)])], fl), "%s/%s/field-of-%s" % (name, "".join(k[0] for k, _ in args), type(v).__name__), "%s, asking for a field of x, where x is %s" % (shown, word))
        else:
            silent(F, rep, "operand", fn[1], Scoped(F, st + [("ifeq", [("x", None)])], fields), "%s/null" % name, "%s where x is null" % shown)


class Page(Whole):
    """A page rendered in a given environment."""

    def __init__(self, F, kind, name, missing):
        super().__init__(F)
        self.kind, self.name, self.missing, self.ends = kind, name, missing, []

    def start(self, G, env):
        super().start(G, env)
        me = ("P", 1)
        env[(me, ())] = ("v", "File")
        env[(me, ("File.name",))] = ("c", "s:" + self.name)
        env[(me, ("File.parsed_contents",))] = ("v", self.kind)
        b = G.root_body
        for i in range(1, b.argc + 1):
            if re.search(r"(^|::)Environment\b", b.types[b.locals[i]["ty"]]["s"]):
                for r in (("P", i), (0, i)):
                    for f in ("root", "md"):
                        env[(r, (f,))] = ("v", "None" if f in self.missing else "Some")

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        self.ends.append((v[1] if v and v[0] == "v" else None, n))


def pages(F, rep):
    b = F.get("stuart_core::fs::Node::process")
    if b is None:
        rep.ok("page", "stuart-core/src/process/mod.rs", "Node::process not found; not decided")
        return
    from graph import Graph
    for kind, names in (("Html", ("index.html", "page.html", "xroot.html", "md.htm")), ("Markdown", ("post.md", "root.md", "md.md"))):
        for name in names:
            for missing in (("root",), ("md",), ("root", "md")):
                if kind == "Html" and "root" not in missing:
                    continue
                w = Page(F, kind, name, missing)
                try:
                    G = Graph(F, b, world=w, widen=300, max_nodes=30000, inline=page_opaque)
                except TooBig:
                    rep.ok("page", loc(b), "too many states; not decided")
                    return
                rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
                rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart_core"})
                bad = [n for k, n in w.ends if k == "Ok"]
                und = not w.ends or any(k not in ("Ok", "Err") for k, _ in w.ends)
                what = "%s, a %s page, with no %s template" % (name, kind, " and no ".join(missing))
                if bad:
                    rep.bad("page", "%s/%s" % (kind, "+".join(missing)), bad[0].loc(), "rendering %s can succeed" % what)
                else:
                    rep.ok("page", loc(b), "rendering %s: %s" % (what, "not determined; not decided" if und else "an error on every path"))
