"""Registry query plus path queries. The parser types collected by the FUNCTION_PARSERS static are read from the MIR of
its initialiser; each documented name (the function table of README.md and the specification in rules/common.py) must be
the constant returned by name() of exactly one of them, and of the Function type its parse() constructs. In the body that
looks functions up, every path to a plugin parser's parse() must cross the exhaustion of the built-in registry, every
parse() call must be guarded by a name comparison on the same element, and every successful return must pass one."""
import os
from .common import *
import extract


def readme_names():
    out = set()
    p = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "README.md")
    if not os.path.exists(p):
        return out
    for l in open(p, errors="replace"):
        m = re.match(r"\|\s*`([a-z]+)(\[[a-z,]+\])?`\s*\|", l)
        if m and ("(" in l.split("|")[3] if l.count("|") >= 4 else False):
            if m.group(2):
                out |= {m.group(1) + x for x in m.group(2)[1:-1].split(",")}
            else:
                out.add(m.group(1))
    return out


def run(F, rep, tier):
    parsers = {ty: (n, items) for (n, ty, items, raw) in builtin_impls(F, FP) if items.get("parse") and items["parse"].krate == "stuart_core"}
    functions = {ty: (n, items) for (n, ty, items, raw) in builtin_impls(F, FN)}
    # 1. registry
    reg, regb = [], None
    for b in F.local:
        if b.krate == "stuart_core" and b.path.endswith("__static_ref_initialize") or (b.kind in ("static",) and b.krate == "stuart_core"):
            a = An(F, b)
            for e in a.exits():
                for t in walk(ret(a, e)):
                    if t[0] == "agg" and t[1] in parsers:
                        reg.append(t[1])
                        regb = b
            if regb is b:
                rep.saw_graph(a)
    where = loc(regb) if regb else "stuart-core/src/lib.rs"
    if not reg:
        rep.ok("registered", where, "the registry has a shape this rule does not read")
    names = [parsers[t][0] for t in reg]
    want = set(BUILTINS) | readme_names()
    if reg:
        for n in sorted(want):
            rep.check(names.count(n) >= 1, "registered", n, where, "`%s` is documented and in the registry" % n)
        for n in sorted({x for x in names if x}):
            rep.check(names.count(n) == 1, "unique", n, where, "one built-in function is named `%s`" % n)
    # 2. parser name == function name
    for ty, (n, items) in sorted(parsers.items()):
        b = items["parse"]
        a = An(F, b)
        rep.saw_graph(a)
        tys = set()
        for e in a.exits():
            v = a.exit_variants(e)
            if v and "Err" in v:
                continue
            for t in alts(ret(a, e)):
                for x in alts(field(t, "Ok.0")) if t[0] == "agg" and t[1].endswith("::Ok") else []:
                    if x[0] == "agg" and x[1] in functions:
                        tys.add(x[1])
        for fty in sorted(tys):
            fn = functions[fty][0]
            rep.check(fn == n and n is not None, "same-name", "%s/%s" % (ty, fty), loc(b), "parser `%s` creates function `%s`" % (n, fn))
        if not tys:
            rep.ok("same-name", loc(b), "%s: function type not read" % n)
    # 3. lookup
    for b in {root_fn(F, b).id: root_fn(F, b) for b in bodies_constructing(F, "stuart_core::parse::function::RawFunction") if b.krate == "stuart_core" and not b.impl_trait}.values():
        lookup(F, rep, b)
    cp = F.get("stuart_core::functions::FunctionParser::can_parse")
    if cp is not None:
        a = An(F, cp)
        rep.saw_graph(a)
        for e in a.exits():
            for t in alts(ret(a, e)):
                ok = t[0] == "bin" and t[1] == "Eq" and {kindof(t[2]), kindof(t[3])} == {"rawname", "name()"}
                rep.check(ok, "can-parse", "can_parse", loc(cp), "can_parse compares the function's name with the parser's: " + show(t)[:120])


def kindof(t):
    if t[0] == "field" and t[2] == "name":
        return "rawname"
    if t[0] == "call" and last(t[1]) == "name":
        return "name()"
    return "?"


def head_term(a, i):
    """The longest iterator term tested at node i."""
    n = next(x for x in a.g.nodes if x.id == i)
    ts = [f[1] for m, l in n.succ for f in a.atoms(n, m, l) if f[0] == "variant"]
    return max(ts, key=lambda t: len(show(t))) if ts else ("unknown", "")


def from_static(t):
    return uses(t, lambda x: x[0] == "static" or (x[0] == "call" and ("lazy" in x[1].lower() or "FUNCTION_PARSERS" in x[1] or "OnceLock" in x[1])))


def spine(t):
    """What a value is taken out of, step by step."""
    out = [t]
    while t[0] in ("field", "index", "cast") or t[0] == "call" and t[2]:
        t = t[2][0] if t[0] == "call" else t[2] if t[0] == "cast" else t[1]
        if not isinstance(t, tuple):
            break
        out.append(t)
    return out


def lookup(F, rep, b):
    a = An(F, b, inline=lambda x, f: not ("parse::parser::Parser" in x.path or x.path.endswith("RawArgument::parse") or x.path.endswith("FunctionParser::can_parse")))
    rep.saw_graph(a)
    parse = [(n, a.arg(n, 0)) for n, p in a.events(r"FunctionParser(>)?::parse$")]
    B = [n for n, t in parse if from_static(t)]
    P = [n for n, t in parse if not from_static(t)]
    if not B or not P:
        rep.check(bool(parse), "lookup", "no-parse", loc(b), "the lookup reaches the built-in and the plugin parsers")
        if parse and not B:
            rep.bad("lookup", "no-builtin", loc(b), "built-in parsers are never run")
        if parse and not P:
            rep.bad("lookup", "no-plugin", loc(b), "plugin parsers are never run")
        return
    exhausted = lambda f: f[0] == "variant" and ((f[2] == "None" and f[3]) or (f[2] == "Some" and not f[3])) and f[1][0] == "call" and from_static(f[1])
    absent = lambda f: exhausted(f)
    for n in P:
        rep.check(a.every_path_has(n, absent), "builtin-first", "plugin-before-builtin", a.where(n), "a plugin parser runs only after the built-in registry was searched to its end")

    def guard(f, el, truth=True):
        if f[0] == "variant" and not truth:
            return False
        if f[0] in ("is", "Eq") and f[3] is not truth:
            return False
        f = f[:3] + (True,) if f[0] in ("is", "Eq") else f
        if f[0] == "is" and f[3] and f[1][0] == "call" and last(f[1][1]) == "can_parse" and f[1][2][0] == el:
            return True
        if f[0] == "Eq" and f[3] and f[2] is not None:
            for u, v in ((f[1], f[2]), (f[2], f[1])):
                if uses(u, lambda x: x[0] == "call" and last(x[1]) == "name" and x[2][0] == el):
                    return True
        if f[0] == "variant" and f[2] == "Some" and f[3] and f[1][0] == "call" and last(f[1][1]) in ("find", "position", "find_map", "get"):
            return True
        return False
    for n, el in parse:
        heads = [m for (x, m, l) in a.edges(lambda f: f[0] == "variant" and f[2] == "Some" and f[3] and f[1][0] == "call" and last(f[1][1]) in ("next",) and f[1] in spine(el))]
        if not heads:
            heads = [a.g.entry]
        path = a.path_to(heads, lambda m: m is n, stop_edge=lambda x, m, l: any(guard(f, el) for f in a.atoms(x, m, l)))
        rep.check(path is None, "guarded", "builtin" if n in B else "plugin", a.where(n), "a parser runs only for the name it declares", a.path_lines(path))
            # an element is passed over only because its name does not match
        if heads != [a.g.entry]:
            nxt = {x.id for (x, m, l) in a.edges(lambda f: f[0] == "variant" and f[2] == "Some" and f[3] and f[1][0] == "call" and last(f[1][1]) == "next" and el[0] == "field" and (el[1] == f[1] or f[1] in spine(el)))}
            inner = [(x, m) for (x, m, l) in a.edges(lambda f: f[0] == "variant" and f[2] == "Some" and f[3] and f[1][0] == "call" and last(f[1][1]) == "next" and f[1] in spine(el))]
            deepest = [m for (x, m) in inner if x.id == max((y.id for y, _ in inner), key=lambda i: len(show(head_term(a, i))))]
            path = a.path_to(deepest, lambda y: y.id in nxt or y in P and n in B, stop_node=lambda y: y is n,
                             stop_edge=lambda x, m, l: any(guard(f, el, False) for f in a.atoms(x, m, l)))
            rep.check(path is None, "not-skipped", "builtin" if n in B else "plugin", a.where(n), "a function is passed over only because its name differs", a.path_lines(path))
    # the guard leads to the parser: after a match nothing else happens first
    ids = {n.id for n, _ in parse}
    for x, m, l in a.edges(lambda f: any(guard(f, el) for _, el in parse)):
        path = a.path_to([m], lambda y: y.info == "exit" or y.id in {q.id for q, p in a.events(r"::next$")}, stop_node=lambda y: y.id in ids)
        rep.check(path is None, "found-is-used", "skip", a.where(x), "a function whose name matches is parsed by the matching parser", a.path_lines(path))
    for e in a.exits("Ok"):
        path = a.path_to([a.g.entry], lambda y: y is e, stop_node=lambda y: y.id in ids)
        rep.check(path is None, "unknown-is-error", "ok-without-parser", loc(b), "a function call is accepted only by a parser", a.path_lines(path))
    # both spellings of a plugin function
    forms = set()
    for x, m, l in a.edges(lambda f: any(guard(f, a.arg(n, 0)) for n in P)):
        for f in a.atoms(x, m, l):
            if f[0] == "Eq" and f[3]:
                for u in (f[1], f[2]):
                    if u[0] == "call" and last(u[1]) == "name":
                        forms.add("bare")
                    else:
                        fm = parse_fmt(u)
                        if fm and any(isinstance(q, tuple) and q[0] == "call" and last(q[1]) == "name" for q in fm):
                            q = ["N" if isinstance(z, tuple) and z[0] == "call" and last(z[1]) == "name" else "P" if isinstance(z, tuple) else z for z in fm]
                            forms.add("".join(q))
            elif f[0] == "is":
                forms.add("?")
    if "?" not in forms and forms:
        rep.check("bare" in forms, "plugin-bare-name", "bare", loc(b), "a plugin function is found by its bare name")
        odd = any(last(p) in ("strip_prefix", "split_once", "rsplit_once", "ends_with", "starts_with", "split", "concat", "join") for n, p in a.events())
        rep.check("P::N" in forms or odd, "plugin-qualified-name", "qualified", loc(b), "a plugin function is found as plugin::function: %s" % sorted(forms))
