"""Abstract interpretation on concrete scopes: every lookup of the template language is interpreted on stacks of three
frames in which every subset of the frames defines the name (as text, as an object with the field asked for, without it, or
as null), next to similar names in every frame. What is returned, inserted, iterated or looked into must be the value of the
innermost frame that defines the name. `import` must bind in the innermost frame, and only if that frame does not define the
name; ending a block must drop exactly its frame; every iteration of a loop must start from a frame that defines only the
loop variable."""
import itertools
from .common import *
from world import Args
from frames import *
from graph import Graph

NAMES = ("base", "begin:main", "ifdefined:x")
NEVER = object()


def scope(defs, var="x", wrap=lambda d: d, names=NAMES):
    """A stack whose frames define `var` as given (NEVER: not at all), among similar names."""
    st = []
    for nm, d in zip(names, defs):
        vs = [(var * 2, "decoy"), (var.upper(), "decoy"), ("field", "decoy")]
        if d is not NEVER:
            vs.append((var, d))
        st.append((nm, vs + [("other", "decoy")]))
    return st


def innermost(defs):
    for i in reversed(range(len(defs))):
        if defs[i] is not NEVER:
            return defs[i]
    return NEVER


def field(x, names):
    for f in names:
        if isinstance(x, dict) and f in x:
            x = x[f]
        elif isinstance(x, list) and f.isdigit() and int(f) < len(x):
            x = x[int(f)]
        else:
            return None
    return x


def cases(deep=True):
    """(reference, definitions, expected value)"""
    for sub in itertools.product((False, True), repeat=3):
        defs = ["F%d" % i if d else NEVER for i, d in enumerate(sub)]
        yield "x", defs, innermost(defs)
        if deep:
            objs = [{"a": "decoy", "field": "G%d" % i} if d else NEVER for i, d in enumerate(sub)]
            w = innermost(objs)
            yield "x.field", objs, NEVER if w is NEVER else w["field"]
    yield "x", ["F0", None, NEVER], None
    yield "x", ["F0", "F1", None], None
    if deep:
        for top in ({"a": "b"}, "text", None, ["l"], {"field": None}):
            yield "x.field", [{"field": "G0"}, NEVER, top], None
            yield "x.field", [{"field": "G0"}, top, NEVER], None
        yield "x.one.two", [NEVER, {"one": {"two": "H0"}, "two": "decoy"}, NEVER], "H0"
        yield "x.1.field", [NEVER, [{"field": "H0"}, {"field": "H1"}], NEVER], "H1"


def told(x):
    return "nothing" if x is NEVER else repr(x)


def show(ref, defs):
    return "`$%s` where the frames, outermost first, define x as %s" % (ref, ", ".join(map(told, defs)))


def explored(F, rep, b, w, rule, nodes=20000):
    try:
        G = Graph(F, b, world=w, widen=2000, max_nodes=nodes, inline=lambda x, f: x.krate == "stuart_core")
    except TooBig:
        rep.ok(rule, loc(b), "too many states; not decided")
        return None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart_core"})
    return G


def called(F, pb, positional, named=()):
    """The fields of the function object that a call with these arguments is parsed to."""
    w = Args(F, positional, list(named))
    try:
        Graph(F, pb, world=w, widen=2000, max_nodes=30000, inline=lambda x, f: x.krate == "stuart_core")
    except TooBig:
        return None
    return w.parsed[0] if len(w.parsed) == 1 else None


class Lookup(Scoped):
    """`Scope::get_variable(&self, name)`"""

    def __init__(self, F, stack, name):
        super().__init__(F, stack)
        self.name = name

    def start(self, G, env):
        super().start(G, env)
        env[(("P", 2), ())] = ("c", "s:" + self.name)


def inserted(name):
    return {("inner",): ("v", "Variable"), ("inner", "Variable.0"): ("c", "s:" + name)}


def run(F, rep, tier):
    lookups(F, rep)
    inserts(F, rep)
    fns = functions(F)
    for name, positional in (("dateformat", [("Variable", "x.field"), ("String", "%Y")]), ("excerpt", [("Variable", "x.field"), ("Integer", 5)]), ("timetoread", [("Variable", "x.field")]),
                             ("ifdefined", [("Variable", "x.field")])) + tuple((c, a) for c in ("ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle") for a in ([("Variable", "x.field"), ("String", "probe")], [("String", "probe"), ("Variable", "x.field")])):
        users(F, rep, name, fns.get(name), positional)
    loops(F, rep, fns.get("for"))
    imports(F, rep, fns.get("import"))
    ends(F, rep, fns.get("end"))


def lookups(F, rep):
    for b in F.local:
        if not re.search(r"process::Scope(<.*>)?::get_variable$", b.path) or b.argc != 2:
            continue
        n = 0
        for ref, defs, want in cases():
            w = Lookup(F, scope(defs), ref)
            if explored(F, rep, b, w, "lookup") is None:
                return
            for kind, env, lost in w.ends:
                if lost:
                    continue
                try:
                    got = python(env, ((0, 0), ("Some.0",))) if kind == "Some" else NEVER if kind == "None" else None if kind is None else Unknown
                except Unknown:
                    continue
                if kind is None or got is Unknown:
                    continue
                n += 1
                if got != want and not (want is None and got is NEVER and "." in ref):
                    rep.bad("lookup", key(ref, defs), loc(b), "%s: the value found is %s, not %s" % (show(ref, defs), told(got), told(want)))
                else:
                    rep.ok("lookup", loc(b), "%s: %s" % (show(ref, defs), told(got)))
        if not n:
            rep.ok("lookup", loc(b), "not determined; not decided")


def key(ref, defs):
    return "%s/%s" % (ref, "".join("-" if d is NEVER else "0" if d is None else "x" for d in defs))


def inserts(F, rep):
    b = F.get(TOKENPROC)
    if b is None:
        rep.ok("insert", TOKENPROC, "not found; not decided")
        return
    n = 0
    for ref, defs, want in cases():
        w = Scoped(F, scope(defs), inserted(ref))
        if explored(F, rep, b, w, "insert") is None:
            return
        for kind, env, lost in w.ends:
            st = w.stack_of(env)
            if lost or kind != "Ok" or st is None or any(f[2] is None or UNK_CH in f[2] for f in st):
                continue
            n += 1
            got = "".join(f[2] for f in st)
            if isinstance(want, str) and (got != want or len(st) != 3 or st[2][2] != want):
                rep.bad("insert", key(ref, defs), loc(b), "%s: inserts %r%s, not %r" % (show(ref, defs), got, " into an outer block" if got == want else "", want))
            elif not isinstance(want, str) and re.search(r"[FGH]\d|decoy", got):
                rep.bad("insert", key(ref, defs), loc(b), "%s: inserts %r, although the innermost definition has no such value" % (show(ref, defs), got))
            else:
                rep.ok("insert", loc(b), "%s: %r" % (show(ref, defs), got))
    if not n:
        rep.ok("insert", loc(b), "not determined; not decided")


def users(F, rep, name, fn, positional):
    """Functions that use the value of a variable: whatever they look into is the innermost definition's."""
    if not fn or None in fn:
        rep.ok("use", name, "not recognised; not decided")
        return
    fields = called(F, fn[0], positional)
    if fields is None:
        rep.ok("use", loc(fn[0]), "%s: the parsed call is not determined; not decided" % name)
        return
    b = fn[1]
    for ref, defs, want in cases():
        if ref not in ("x.field",):
            continue
        w = Scoped(F, scope(defs), fields)
        if explored(F, rep, b, w, "use") is None:
            return
        for got, lost, n in w.used:
            if lost or got == want:
                continue
            if isinstance(got, str) and re.fullmatch(r"[FGH]\d|decoy", got) or got is None and isinstance(want, str):
                rep.bad("use", "%s/%s" % (name, key(ref, defs)), n.loc(), "%s in %s: the value used is %s, not %s" % (show(ref, defs), name, told(got), told(want)))
        rep.ok("use", loc(b), "%s: %s: looks into %s" % (name, show(ref, defs), ", ".join(sorted({told(x) for x, l, _ in w.used if not l})) or "nothing that is determined"))


def loops(F, rep, fn):
    if not fn or None in fn:
        rep.ok("loop", "for", "not recognised; not decided")
        return
    for ref in ("x", "x.field"):
        fields = called(F, fn[0], [("Variable", "v"), ("Variable", ref)])
        if fields is None:
            rep.ok("loop", loc(fn[0]), "the parsed call is not determined; not decided")
            return
        n = 0
        for sub in itertools.product((False, True), repeat=3):
            lists = ["decoy" if d is None else ["F%d" % i] if d else NEVER for i, d in enumerate(sub)]
            defs = lists if ref == "x" else [NEVER if l is NEVER else {"a": ["decoy"], "field": l} for l in lists]
            want = innermost(lists)
            w = Scoped(F, [(nm, vs + [("v", "outer")]) for nm, vs in scope(defs)], fields)
            if explored(F, rep, fn[1], w, "loop", 40000) is None:
                return
            for env, lost, node in w.went:
                st = w.stack_of(env)
                if lost or st is None or len(st) < 4:
                    continue
                n += 1
                vs = [(k, x) for k, x in st[-1][1]]
                if any(x is Unknown for _, x in vs):
                    continue
                if want is NEVER or not vs:
                    continue
                if ("v", want[0]) not in vs:
                    rep.bad("loop", key(ref, defs), node.loc(), "%s: the loop variable is %s in its first iteration, not %r" % (show(ref, defs), ", ".join("%s = %s" % (k, told(x)) for k, x in vs) or "not bound", want[0]))
                elif len(vs) > 1 or st[:3] != [(nm, [(k, x) for k, x in v], "") for nm, v in w.frames]:
                    rep.bad("loop", "frame", node.loc(), "an iteration starts with definitions other than the loop variable's, or changes an outer block: %s" % ", ".join(k for k, _ in vs))
                else:
                    rep.ok("loop", node.loc(), "%s: iterates over %s" % (show(ref, defs), want))
        if not n:
            rep.ok("loop", loc(fn[1]), "%s: the iteration is not determined; not decided" % ref)


def tree():
    return node("content", "dir", [node("data.json", "Json", {"k": "J"}), node("dir", "dir", [node("data.json", "Json", {"k": "decoy"})])])


def imports(F, rep, fn):
    if not fn or None in fn:
        rep.ok("import", "import", "not recognised; not decided")
        return
    fields = called(F, fn[0], [("Variable", "x"), ("String", "data.json")])
    if fields is None:
        rep.ok("import", loc(fn[0]), "the parsed call is not determined; not decided")
        return
    b, n = fn[1], 0
    for sub in itertools.product((False, True), repeat=3):
        defs = ["F%d" % i if d else NEVER for i, d in enumerate(sub)]
        w = Scoped(F, scope(defs), fields, tree=tree())
        if explored(F, rep, b, w, "import") is None:
            return
        before = [(nm, vs, "") for nm, vs in w.frames]
        for kind, env, lost in w.ends:
            st = w.stack_of(env)
            if lost or kind not in ("Ok", "Err"):
                continue
            n += 1
            if kind == "Err":
                rep.check(sub[2], "import", "refused/%s" % key("x", defs), loc(b), "%s: importing `$x` is refused" % show("x", defs))
                continue
            if st is None or any(x is Unknown for f in st for _, x in f[1]):
                continue
            if sub[2]:
                rep.bad("import", "redefined/%s" % key("x", defs), loc(b), "%s: importing `$x` is accepted, although the innermost block defines it" % show("x", defs))
            elif len(st) != 3 or [sorted(f[1], key=str) for f in st[:2]] != [sorted(f[1], key=str) for f in before[:2]]:
                rep.bad("import", "outer/%s" % key("x", defs), loc(b), "importing a variable changes the definitions of an outer block")
            elif not sorted(k for k, _ in st[2][1]) == sorted([k for k, _ in before[2][1]] + ["x"]) or ("x", {"k": "J"}) not in st[2][1] or any(y not in st[2][1] for y in before[2][1]):
                rep.bad("import", "bound/%s" % key("x", defs), loc(b), "importing `$x` leaves the innermost block with %s" % ", ".join("%s = %s" % (k, told(x)) for k, x in st[2][1]))
            else:
                rep.ok("import", loc(b), "%s: bound in the innermost block" % show("x", defs))
    if not n:
        rep.ok("import", loc(b), "not determined; not decided")


def ends(F, rep, fn):
    if not fn or None in fn:
        rep.ok("end", "end", "not recognised; not decided")
        return
    for arg, top in ((("String", "s"), "begin:s"), (("Ident", "for"), "for:v"), (("Ident", "ifdefined"), "ifdefined:x"), (("Ident", "ifeq"), "ifeq:x:y")):
        fields = called(F, fn[0], [arg])
        if fields is None:
            rep.ok("end", loc(fn[0]), "the parsed call is not determined; not decided")
            continue
        n = 0
        defs = ["F0", "F1", "F2"]
        w = Scoped(F, scope(defs, names=("base", "begin:main", top)), fields)
        if explored(F, rep, fn[1], w, "end") is None:
            return
        before = [(nm, vs) for nm, vs in w.frames]
        for kind, env, lost in w.ends:
            st = w.stack_of(env)
            if lost or kind != "Ok" or st is None:
                continue
            n += 1
            now = [(f[0], f[1]) for f in st]
            if now == before[:2]:
                rep.ok("end", loc(fn[1]), "ending %r drops the definitions made in it, and no others" % top)
            elif any(x is Unknown for f in st for _, x in f[1]):
                rep.ok("end", loc(fn[1]), "not determined; not decided")
            else:
                rep.bad("end", top.split(":")[0], loc(fn[1]), "when the block %r ends, the definitions left are %s" % (top, "; ".join("%s: %s" % (nm, ", ".join("%s = %s" % (k, told(x)) for k, x in vs)) for nm, vs in now)))
        if not n:
            rep.ok("end", loc(fn[1]), "%s: not determined; not decided" % top)
