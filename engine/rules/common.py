"""Helpers shared by the rules."""
import os, re, sys
from ana import An, CallGraph, parse_fmt
from terms import walk, alts, show, field
from graph import TooBig

FN = "stuart_core::functions::Function"
FP = "stuart_core::functions::FunctionParser"
RAWARG = "stuart_core::parse::function::RawArgument"

# The documented built-in functions: number of positional arguments, accepted kinds per position, named arguments.
V, S, I, N = "Variable", "String", "Integer", "Ident"
IFARGS = [{V, S, I}, {V, S, I}]
BUILTINS = {
    "begin": (1, [{S, N}], ()),
    "end": (1, [{S, N}], ()),
    "insert": (1, [{S}], ()),
    "import": (2, [{V}, {S}], ()),
    "for": (2, [{V}, {V, S}], ("skip", "limit", "sortby", "order")),
    "dateformat": (2, [{V}, {S}], ()),
    "excerpt": (2, [{V}, {I}], ()),
    "timetoread": (1, [{V}], ()),
    "ifdefined": (1, [{V}], ()),
    "else": (0, [], ()),
    "ifeq": (2, IFARGS, ()), "ifne": (2, IFARGS, ()), "ifgt": (2, IFARGS, ()),
    "ifge": (2, IFARGS, ()), "iflt": (2, IFARGS, ()), "ifle": (2, IFARGS, ()),
}


def rel(b):
    f = b.span[0]
    return f.split("/repo/")[-1]


def loc(b):
    return "%s:%d (%s)" % (rel(b), b.span[1], b.path)


def const_name(F, body):
    """The constant string a `name()` method returns, or None."""
    if body is None:
        return None
    a = An(F, body)
    vals = set()
    for e in a.exits():
        for t in alts(a.T.at(e, None, ((0, 0), ()))):
            vals.add(t[1] if t[0] == "const" and isinstance(t[1], str) else None)
    return next(iter(vals)) if len(vals) == 1 else None


def builtin_impls(F, trait):
    """{documented name or impl type: (self type, items)} for the implementations of Function / FunctionParser."""
    out = []
    for (self_ty, items, raw) in F.impls_of(trait):
        out.append((const_name(F, items.get("name")), self_ty, items, raw))
    return out


def ret(a, e):
    return a.T.at(e, None, ((0, 0), ()))


def retf(a, e, *path):
    """The value of a component of the returned value at an exit (sees partial writes)."""
    return a.T.at(e, None, ((0, 0), tuple(path)))


def is_len_of(t, x):
    return t[0] == "call" and t[1] == "len" and t[2][0] == x


def contains(t, x):
    return any(y == x for y in walk(t))


def uses(t, pred):
    return any(pred(y) for y in walk(t))


def last(p):
    """Last path segment of a callee path."""
    return re.sub(r"<[^<>]*>$", "", p).rsplit("::", 1)[-1].rstrip(">")


def bodies_constructing(F, adt):
    """Workspace bodies with an aggregate of this ADT."""
    out = []
    for b in F.local:
        for blk in b.blocks:
            if any(s["k"] == "assign" and s["r"]["k"] == "agg" and s["r"].get("a") == "adt" and s["r"].get("path") == adt for s in blk["st"]):
                out.append(b)
                break
    return out


def root_fn(F, b):
    """The function a closure is (transitively) written in."""
    while b is not None and b.kind == "closure" and b.parent:
        b = F.bodies.get(b.parent)
    return b


# ---------------------------------------------------------------- paths
import effects

JOIN = re.compile(r"std::path::(Path|PathBuf)::(join|push)$")
PATHID = re.compile(r"(to_string_lossy|trim_start_matches|into_owned|to_string|as_os_str|into_os_string|display|canonicalize|with_extension)$")


def elements(t):
    """The constants an element of an iterated constant array can be, or None."""
    if t[0] == "field" and t[2] == "Some.0" and t[1][0] == "call" and t[1][1].endswith("Iterator::next") and t[1][2]:
        s = t[1][2][0]
        if s[0] == "agg" and s[1] == "array" and s[2] and all(v[0] == "const" for f, v in s[2]):
            return [v[1] for f, v in s[2]]
    return None


def refine(a, n, comps):
    """Component tuples with elements of constant arrays replaced by the constants they can be at node n."""
    out = [()]
    facts = None
    for c in comps:
        vals = [c]
        e = elements(c) if isinstance(c, tuple) and c and c[0] == "field" else None
        if e is not None:
            facts = a.facts_at(n) if facts is None else facts
            eq = [f[2][1] for f in facts if f[0] == "Eq" and f[3] and f[1] == c and f[2][0] == "const"]
            ne = {f[2][1] for f in facts if f[0] == "Eq" and not f[3] and f[1] == c and f[2][0] == "const"}
            vals = eq[:1] or [x for x in e if x not in ne]
        out = [o + (v,) for o in out for v in vals]
    return out


def pathparts(t, strict=False):
    """Alternatives of a path term as (base term, (component terms...)); a constant path has base None.
    strict: a canonicalised path is not the path itself (it may be the target of a link)."""
    out = []
    for x in alts(t):
        if strict and "canonicalize" in show(x):
            inner = x[1] if x[0] == "field" else x
            if inner[0] == "call" and last(inner[1]) in ("canonicalize", "read_link"):
                out.append((x, ()))
                continue
        if x[0] == "call" and JOIN.search(x[1]) and len(x[2]) == 2:
            for b, cs in pathparts(x[2][0], strict):
                for c in alts(x[2][1]):
                    out.append((b, cs + (flat(c),)))
        elif x[0] == "call" and x[1].endswith("trim_start_matches") and x[2][0][0] != "const":
            out += pathparts(x[2][0], strict)
        elif x[0] == "call" and PATHID.search(x[1]) and x[2]:
            out += pathparts(x[2][0], strict)
        elif x[0] == "field" and x[2] in ("Ok.0", "Some.0") and x[1][0] == "call" and PATHID.search(x[1][1]):
            out += pathparts(x[1][2][0], strict)
        elif x[0] == "const":
            out.append((None, (x[1],)))
        else:
            out.append((x, ()))
    return out


def flat(c):
    """A path component: a string, a tuple of literal and term parts for format!, or a term."""
    if c[0] == "const":
        return c[1]
    f = parse_fmt(c)
    if f is not None:
        return ("fmt",) + tuple(f)
    return c


def litprefix(c):
    """The literal text a component starts with."""
    if isinstance(c, str):
        return c
    if isinstance(c, tuple) and c and c[0] == "fmt" and len(c) > 1 and isinstance(c[1], str):
        return c[1]
    return ""


def mutators(F, cg):
    """ids of workspace bodies that may (transitively) change the filesystem."""
    direct = {b.id for b in F.local if any(effects.FS_MUT.search(p) for p, sp, c, fn in cg.ext[b.id])}
    pred = {}
    for b, out in cg.succ.items():
        for c, sp in out:
            pred.setdefault(c.id, set()).add(b)
    seen, work = set(direct), list(direct)
    while work:
        x = work.pop()
        for p in pred.get(x, ()):
            if p not in seen:
                seen.add(p)
                work.append(p)
    return direct, seen


def pathish(F, n, i):
    a = n.term["args"][i]
    return a


def mutation_events(a, mut):
    """Events of the analysis that change the filesystem: [(node, callee path)]. `mut`: ids from mutators()."""
    out = []
    for n, p in a.events():
        if n.call[2] is not None and n.call[2].id in mut:
            out.append((n, p))
        elif n.call[2] is None and effects.FS_MUT.search(p) and not p.endswith(("OpenOptions::new", "File::options", "DirBuilder::new")):
            out.append((n, p))
    return out


BUILD = "stuart::build::StuartContext::build"
INIT = "stuart::build::StuartContext::init"


def build_an(F):
    """StuartContext::build with everything of the command line crate, Stuart::save and Stuart::save_metadata entered."""
    b = F.get(BUILD)
    return An(F, b, inline=lambda x, f: x.path not in ("stuart_core::Stuart::build",)) if b else None


def self_field(a, *names):
    t = ("param", 1, a.body.locals[1].get("name") or "_1")
    for n in names:
        t = ("field", t, n)
    return t


def err_edge(f):
    return f[0] == "variant" and ((f[2] in ("Err", "None") and f[3]) or (f[2] in ("Ok", "Some") and not f[3]))


def has_variant(f, name):
    other = {"Ok": "Err", "Err": "Ok", "Some": "None", "None": "Some"}[name]
    return f[0] == "variant" and ((f[2] == name and f[3]) or (f[2] == other and not f[3]))


# ---------------------------------------------------------------- pages
from ceval import Case, Walk, ev, truth, Tag, UNK

TOKENPROC = "stuart_core::parse::LocatableToken::process"
TOKENNEW = r"stuart_core::process::iter::TokenIter::new$"


def page_opaque(x, f):
    """What stays a call when the rendering of a page is analysed."""
    return not (x.path == TOKENPROC or "::process::iter::" in x.path or x.path.endswith(("StackFrame::with_variable", "StackFrame::add_variable", "::to_json")))


def page_an(F, path="stuart_core::fs::Node::process"):
    b = F.get(path)
    return An(F, b, inline=page_opaque) if b else None


def params(b):
    return [("param", i, b.locals[i].get("name") or "_%d" % i) for i in range(1, b.argc + 1)]


def param_of(b, *adts):
    """The first parameter whose type is, or is a reference to, one of these types."""
    for i, p in enumerate(params(b), 1):
        t = b.ty(i)
        while t["k"] == "ref":
            t = b.types[t["t"]]
        if t.get("path") in adts:
            return p
    return None


def page_case(a, kind, **names):
    """The rendering of a page whose parsed contents are of this kind."""
    me = params(a.body)[0]
    env = {me: Tag("File"), ("field", me, "File.parsed_contents"): Tag(kind), ("field", me, "File.name"): names.get("name", {"Html": "page.html", "Markdown": "page.md"}.get(kind, "page.x"))}
    return Case(a, env, loose=True)


def stores_through(a, n):
    """Values assigned through the reference an opaque call returned: [term]."""
    d = a.g.place(n.frame, n.term["dest"], a.T.senv(n)[-1])
    out = []
    for m in a.g.nodes:
        if m.kind != "b" or m.frame is not n.frame:
            continue
        for i, s in enumerate(m.block["st"]):
            if s["k"] == "assign" and s["p"][1]:
                q = a.g.place(m.frame, s["p"], a.T.senv(m)[i])
                if q[0] == d[0] and q[1][:len(d[1]) + 1] == d[1] + ("*",):
                    out.append(a.T.rvalue(m, i, s["r"], frozenset()) if hasattr(a.T, "rvalue") else a.T.atom((m, i, "assign", s["r"], ()), frozenset()))
    return out


def assigns_field(a, n, root, name):
    """Does this node assign to field `name` reachable from parameter local `root` of the entry frame?"""
    if n.kind != "b":
        return False
    for i, s in enumerate(n.block["st"]):
        if s["k"] == "assign" and s["p"][1]:
            q = a.g.place(n.frame, s["p"], a.T.senv(n)[i])
            if q[0] in ((a.g.entry.frame.id, root), ("P", root)) and [x for x in q[1] if x != "*"][:1] == [name]:
                return True
    return False


def node_names(t):
    return t[0] == "field" and t[2] in ("File.name", "Directory.name") or t[0] == "call" and t[1].endswith("fs::Node::name")


def term_root(t):
    while t[0] in ("field", "index") or t[0] == "call" and t[2]:
        t = t[1] if t[0] in ("field", "index") else t[2][0]
    return t


def closure_accepts(F, cid, name):
    """The value of a predicate closure on a node with this name, when only the name matters: True, False or None."""
    cb = F.bodies.get(cid)
    if cb is None:
        return None
    ca = An(F, cb)
    ts = {x for n in ca.g.nodes for m, l in n.succ if l for f in ca.atoms(n, m, l) for t in f[1:3] if isinstance(t, tuple) for x in walk(t) if node_names(x)}
    ts |= {x for e in ca.exits() for x in walk(ret(ca, e)) if node_names(x)}
    if not ts or len({repr(term_root(t)) for t in ts}) != 1:
        return None
    c = Case(ca, {t: name for t in ts})
    vals = {ev(c.retf(e), c.env) for e in c.exits()}
    return next(iter(vals)) if len(vals) == 1 and isinstance(next(iter(vals)), bool) else None


def closures_in(t):
    return [y[1][8:] for y in walk(t) if y[0] == "agg" and y[1].startswith("closure:")]


def jsonobj(t):
    """{key: value term} of a JSON object written out as a literal, or None."""
    for x in alts(t):
        if x[0] == "agg" and x[1].endswith("Value::Object") and x[2]:
            a = x[2][0][1]
            if a[0] == "agg" and a[1] == "array":
                out = {}
                for f, v in a[2]:
                    if v[0] == "agg" and v[1] == "tuple" and len(v[2]) == 2 and v[2][0][1][0] == "const":
                        out[v[2][0][1][1]] = v[2][1][1]
                return out
    return None


DROPPING = re.compile(r"Iterator::(filter|filter_map|skip|take|skip_while|take_while|step_by|map_while)$")


def name_constants(a, pred):
    """String constants the analysed code compares with, or looks for in, terms satisfying `pred` (names of files)."""
    out = set()
    for n in a.g.nodes:
        for m, l in n.succ:
            if not l:
                continue
            for f in a.atoms(n, m, l):
                for t in f[1:3]:
                    for x in walk(t) if isinstance(t, tuple) else ():
                        sub = x[2] if x[0] == "call" else x[1:] if x[0] in ("cmp", "bin", "op") else ()
                        ss = [y[1] for y in sub if isinstance(y, tuple) and y[:1] == ("const",) and isinstance(y[1], str)]
                        if ss and any(isinstance(y, tuple) and y and isinstance(y[0], str) and any(pred(z) for z in walk(y)) for y in sub):
                            out |= set(ss)
                if f[0] == "Eq":
                    for x, y in ((f[1], f[2]), (f[2], f[1])):
                        if isinstance(x, tuple) and x[:1] == ("const",) and isinstance(x[1], str) and isinstance(y, tuple) and any(pred(z) for z in walk(y)):
                            out.add(x[1])
    return {s for s in out if s and len(s) < 40 and "/" not in s}


def name_classes(consts):
    """File names around the given constants: the constant alone, with something before, after, around it, other case,
    and each of these with the extensions that matter."""
    out = set()
    for s in consts:
        base = {s, "x" + s, s + "x", "x" + s + "x", s.upper(), s[:1].upper() + s[1:], s[1:], s[:-1]}
        out |= base | {x + e for x in base for e in (".html", ".json", ".md")}
    return sorted(x for x in out if x)


def functions(F):
    """{name: (parse body, execute body)} of the built-in functions, matched by the names both sides report."""
    out = {}
    for name, ty, items, raw in builtin_impls(F, FP):
        if name and items.get("parse") is not None and items["parse"].krate == "stuart_core":
            out[name] = [items["parse"], None]
    for name, ty, items, raw in builtin_impls(F, FN):
        if name in out and items.get("execute") is not None:
            out[name][1] = items["execute"]
    return {k: tuple(v) for k, v in out.items()}
