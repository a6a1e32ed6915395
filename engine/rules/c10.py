"""Forward may-analyses over the exploded MIR graph of every FunctionParser::parse implementation: at every exit that
returns Ok, the length of the positional argument list must be exactly the documented one, the list of named arguments
must be empty (or, for `for`, every element must have passed an equality test with a documented name, and a test that
this option is still unset), the kind of every positional argument must be one the documentation accepts, and every
argument's payload must occur in the value returned. In the body that builds RawFunction, every argument text taken
from the template is either empty, rejected, or pushed to the argument list that the function parser receives."""
from .common import *
from facts import op_place, rv_ops, rv_places


def run(F, rep, tier):
    for (name, ty, items, raw) in builtin_impls(F, FP):
        b = items.get("parse")
        if b is None:
            continue
        parse_impl(F, rep, name, ty, b)
    raw_function(F, rep)
    raw_argument(F, rep)


def parse_impl(F, rep, name, ty, b):
    a = An(F, b)
    rep.saw_graph(a)
    who = name or ty
    pi = next((i for i in range(1, b.argc + 1) if b.ty(i).get("path") == "stuart_core::parse::function::RawFunction"), 2)
    rawp = ("param", pi, b.locals[pi].get("name") or "_%d" % pi)
    pos, named = ("field", rawp, "positional_args"), ("field", rawp, "named_args")
    oks = a.exits("Ok")
    if not oks:
        oks = [e for e in a.exits() if a.exit_variants(e) is None]
    spec = BUILTINS.get(name) if b.krate == "stuart_core" else None
    dom = list(range(0, 9))
    lens = a.valueset(lambda t: is_len_of(t, pos), dom)
    have = set()
    for e in oks:
        have |= lens.get(e.id, frozenset())
    whole = all(uses(ret(a, e), lambda t: t[0] == "field" and t == pos) and not spec for e in oks)
    odd_shape = any(("next" in last(p) or last(p) in ("pop", "remove", "drain", "swap_remove", "try_into")) and any(contains(x, pos) for x in a.args(n)[:1])
                    for n, p in a.events())
    if spec:
        n = spec[0]
        if have == {n}:
            rep.ok("positional-count", loc(b), "%s: Ok is returned only with %d positional arguments" % (who, n))
        elif odd_shape and (n in have):
            rep.ok("positional-count", loc(b), "%s: arguments taken by an iterator, count not decided" % who)
        elif have:
            rep.bad("positional-count", "%s" % who, loc(b), "a call to `%s` with %s positional arguments is accepted; documented: exactly %d" % (
                who, "/".join("%d%s" % (v, "+" if v == dom[-1] else "") for v in sorted(have ^ {n} if have - {n} else have)), n))
    elif not whole and b.krate == "stuart_core":
        rep.check(dom[-1] not in have or odd_shape, "positional-count", who, loc(b), "%s: number of positional arguments accepted is bounded" % who)
    # named arguments
    nl = a.valueset(lambda t: is_len_of(t, named), dom)
    got = set()
    for e in oks:
        got |= nl.get(e.id, frozenset())
    allowed = set(spec[2]) if spec else set()
    if got <= {0}:
        rep.ok("named-arguments", loc(b), "%s: Ok is returned only without named arguments" % who)
    else:
        named_loop(a, rep, who, b, named, oks, allowed, spec)
    # kinds
    if spec and have and not odd_shape:
        for k, kinds in enumerate(spec[1]):
            el = ("index", pos, "[%d]" % k)
            vs = a.variantset(lambda t: t == el, F.variants(RAWARG))
            acc = set()
            for e in oks:
                acc |= vs.get(e.id, frozenset())
            extra = acc - kinds
            miss = kinds - acc
            rep.check(not extra, "argument-kind", "%s/%d/%s" % (who, k, "+".join(sorted(extra))), loc(b),
                      "%s: positional argument %d is accepted as %s (documented: %s)" % (who, k, "/".join(sorted(acc)), "/".join(sorted(kinds))))
            rep.check(not miss, "argument-kind-missing", "%s/%d/%s" % (who, k, "+".join(sorted(miss))), loc(b),
                      "%s: positional argument %d is never accepted as %s although documented" % (who, k, "/".join(sorted(miss))) if miss else "%s: all documented kinds of argument %d are accepted" % (who, k))
    # payloads used
    if spec and not odd_shape:
        for e in oks:
            t = ret(a, e)
            for k in range(spec[0]):
                el = ("index", pos, "[%d]" % k)
                used = uses(t, lambda x: x == el or x == pos)
                # a fixed kind may also be consumed by turning it into a constant (e.g. an ident compared with a name)
                rep.check(used, "argument-used", "%s/%d" % (who, k), loc(b), "%s: positional argument %d flows into the parsed function" % (who, k))
    elif not spec:
        for e in oks:
            t = ret(a, e)
            idx = sorted({x[2] for x in walk(t) if x[0] == "index" and x[1] == pos and isinstance(x[2], str)})
            w = uses(t, lambda x: x == pos)
            mx = max([v for v in have if v != dom[-1]] or [0])
            rep.check(w or odd_shape or len(idx) >= mx, "argument-used", who, loc(b),
                      "%s: positional arguments %s flow into the parsed function" % (who, "(whole list)" if w else idx))


def named_loop(a, rep, who, b, named, oks, allowed, spec):
    item = lambda t: t[0] == "field" and t[2] == "Some.0" and t[1][0] == "call" and last(t[1][1]) in ("next", "get") and contains(t[1], named)
    okids = {e.id for e in oks}
    some = a.edges(lambda x: x[0] == "variant" and x[2] == "Some" and x[3] and x[1][0] == "call" and last(x[1][1]) == "next" and contains(x[1], named))
    if not some:
        touched = any(contains(t, named) for n, p in a.events() for t in a.args(n) if last(p) not in ("len", "is_empty"))
        if touched:
            rep.ok("named-arguments", loc(b), "%s: named arguments are consumed in a shape this rule does not decide" % who)
        else:
            rep.bad("named-arguments", who, loc(b), "a call to `%s` with named arguments is accepted and they are ignored" % who)
        return
    nameterm = lambda t: t[0] == "field" and t[2] == "0" and item(t[1])
    heads = {n.id for n, p in a.events() if last(p) == "next" and contains(a.arg(n, 0), named)}
    starts = [m for (n, m, l) in some]

    def eqname(x, names=None):
        if x[0] != "Eq" or not x[3] or x[2] is None:
            return None
        for u, v in ((x[1], x[2]), (x[2], x[1])):
            if nameterm(u) and v[0] == "const" and isinstance(v[1], str):
                return v[1]
        return None
    seen_names = set()
    for (n, m, l) in a.edges(lambda x: eqname(x) is not None):
        for x in a.atoms(n, m, l):
            if eqname(x) is not None:
                seen_names.add(eqname(x))
    # 1: every path from one item to the next (or to Ok) recognises the name
    p = a.path_to(starts, lambda n: n.id in heads or n.id in okids, stop_edge=lambda n, m, l: any(eqname(x) is not None for x in a.atoms(n, m, l)))
    rep.check(p is None, "named-argument-unknown", who, loc(b), "%s: an unknown named argument never leads on to the next argument or to Ok" % who, a.path_lines(p))
    if spec:
        extra = set()
        for nm in seen_names - allowed:
            st = [m for (n, m, l) in a.edges(lambda x: eqname(x) == nm)]
            if a.path_to(st, lambda n: n.id in heads or n.id in okids):
                extra.add(nm)
        rep.check(not extra, "named-argument-undocumented", "%s/%s" % (who, "+".join(sorted(extra))), loc(b), "%s: accepted named arguments %s are documented" % (who, sorted(seen_names)))
        rep.check(not (allowed - seen_names), "named-argument-missing", "%s/%s" % (who, "+".join(sorted(allowed - seen_names))), loc(b), "%s: every documented named argument is recognised" % who)
    # 2: a second argument of the same name is not silently preferred to the first
    for nm in sorted(seen_names):
        st = [m for (n, m, l) in a.edges(lambda x: eqname(x) == nm)]

        def dup(x):
            op, t, v, tr = x
            if op == "variant" and ((v == "None" and tr) or (v == "Some" and not tr)) and not (t[0] == "call"):
                return True
            if op == "is" and t[0] == "call" and last(t[1]) in ("insert", "contains", "contains_key", "replace"):
                return True
            if op == "variant" and t[0] == "call" and last(t[1]) in ("insert", "replace", "get"):
                return True
            return op == "Eq" and isinstance(t, tuple) and t[0] in ("phi", "const") and v and v[0] == "const"
        # a second occurrence: entered from a state that an earlier occurrence reached
        p = two_phase(a, st, lambda n, m, l: any(eqname(x) == nm for x in a.atoms(n, m, l)), lambda n: n.id in heads or n.id in okids,
                      lambda n, m, l: any(dup(x) for x in a.atoms(n, m, l)))
        rep.check(p is None, "named-argument-repeated", "%s/%s" % (who, nm), loc(b), "%s: `%s` is only accepted while it is unset" % (who, nm), a.path_lines(p))


def two_phase(a, starts, second, goal, stop):
    """A path from starts that crosses an edge satisfying `second` and then reaches a goal node without crossing a stop edge."""
    from collections import deque
    prev = {(n.id, 0): None for n in starts}
    work = deque((n, 0) for n in starts)
    while work:
        n, ph = work.popleft()
        if ph == 1 and goal(n):
            out, k = [], (n.id, ph)
            while k is not None:
                out.append(a.g.nodes[k[0]])
                k = prev[k]
            return out[::-1]
        for (m, l) in n.succ:
            q = 1 if ph == 1 or second(n, m, l) else 0
            if (m.id, q) in prev or (ph == 1 and stop(n, m, l)):
                continue
            prev[(m.id, q)] = (n.id, ph)
            work.append((m, q))
    return None


def raw_function(F, rep):
    RF = "stuart_core::parse::function::RawFunction"
    for b in bodies_constructing(F, RF):
        if b.impl_trait or b.krate != "stuart_core":
            continue
        b = root_fn(F, b)
        a = An(F, b, inline=lambda x, f: not ("parse::parser::Parser" in x.path or x.path.endswith("RawArgument::parse")))
        rep.saw_graph(a)
        isp = lambda t: t[0] == "call" and t[1].endswith("RawArgument::parse")
        parses = [(n, p) for n, p in a.events(r"RawArgument::parse$")]
        if not parses:
            rep.ok("argument-kept", loc(b), "arguments are not parsed in this body")
            continue
        cons = [n for n in a.g.nodes if n.kind == "b" and any(s["k"] == "assign" and s["r"]["k"] == "agg" and s["r"].get("path") == RF for s in n.block["st"])]
        consids = {n.id for n in cons}
        # every parsed argument reaches a push before the RawFunction is built
        pushes = {n.id: a.arg(n, 1) for n, p in a.events(r"(push|insert|push_back|extend)$") if len(n.term["args"]) > 1}
        carrying = {i for i, t in pushes.items() if uses(t, isp)}
        for n, p in parses:
            src = a.arg(n, 0)
            path = a.path_to([m for m, l in n.succ], lambda x: x.id in consids or (x.id in {q.id for q, _ in parses}),
                             stop_node=lambda x: x.id in carrying)
            rep.check(path is None, "argument-kept", b.path + "/parsed", a.where(n), "a parsed argument is pushed to an argument list before anything else is parsed", a.path_lines(path))
        # no argument leaves its list again
        for n, p in a.events(r"::(retain|retain_mut|dedup|dedup_by|dedup_by_key|truncate|clear|insert|remove|swap_remove|pop|or_insert|or_insert_with|entry|and_modify)$"):
            q = op_place(n.term["args"][0]) if n.term and n.term.get("args") else None
            ty = n.frame.body.types[n.frame.body.locals[q[0]]["ty"]]["s"] if q else ""
            if "RawArgument" not in ty or n.frame.body.krate != "stuart_core":
                continue
            m = last(p)
            d = n.term["dest"]
            used = not d[1] and any(mentions(bl, d[0]) for bl in n.frame.body.blocks)
            if "Map" in ty and m == "insert" and not used and not a.every_path_has(n, lambda f: uses(f[1], lambda y: y[0] == "call" and last(y[1]) in ("contains_key", "get", "any"))):
                rep.bad("argument-kept", "replaced", a.where(n), "an argument given before under the same name is replaced")
            elif "Map" not in ty and (m.startswith(("retain", "dedup")) or m in ("truncate", "clear", "remove", "swap_remove", "pop") and not used):
                rep.bad("argument-kept", "removed/" + m, a.where(n), "arguments that were parsed are removed from their list again")
        # every extracted argument text is parsed, rejected or empty
        texts = set()
        for n, p in parses:
            for t in walk(a.arg(n, 0)):
                if t[0] == "call" and "parser::Parser" in t[1]:
                    texts.add(t)
        tp = {t[1] for t in texts}
        pid = {n.id for n, _ in parses}
        for n in a.calls(r"parser::Parser::\w+$"):
            if a.result(n) not in texts:
                continue
            t = a.result(n)

            def empty(x):
                return x[0] == "Eq" and x[3] and x[2] == ("const", 0) and x[1][0] == "call" and x[1][1] == "len" and contains(x[1], t)
            path = a.path_to([m for m, l in n.succ], lambda x: x.id in consids, stop_node=lambda x: x.id in pid,
                             stop_edge=lambda x, m, l: any(empty(f) for f in a.atoms(x, m, l)))
            rep.check(path is None, "argument-kept", b.path + "/text", a.where(n), "an argument text is parsed, rejected, or empty", a.path_lines(path))
        # both lists reach the function parser
        for n in cons:
            for s in n.block["st"]:
                if s["k"] == "assign" and s["r"]["k"] == "agg" and s["r"].get("path") == RF:
                    i = n.block["st"].index(s)
                    for f, o in zip(s["r"]["fields"], s["r"]["ops"]):
                        if f in ("positional_args", "named_args"):
                            t = a.T.operand(n, i, o)
                            rep.check(uses(t, isp), "argument-list", f, loc(b), "RawFunction.%s carries the parsed arguments" % f)


def mentions(bl, l):
    """Whether a block reads the local (other than to drop it)."""
    for s in bl["st"]:
        if s["k"] == "assign" and any(p[0] == l for p in [op_place(o) for o in rv_ops(s["r"])] + list(rv_places(s["r"])) if p):
            return True
    t = bl["t"]
    return t["k"] == "call" and any((op_place(x) or (None,))[0] == l for x in t["args"]) or t["k"] == "switch" and (op_place(t["d"]) or (None,))[0] == l


BAD = {"split", "splitn", "rsplit", "rsplitn", "split_once", "rsplit_once", "take", "nth", "chars", "truncate", "trim_matches", "trim_start_matches",
       "trim_end_matches", "find", "lines", "split_whitespace", "take_while", "skip", "skip_while", "filter", "to_lowercase", "to_uppercase", "replace"}


def raw_argument(F, rep):
    b = F.get("stuart_core::parse::function::RawArgument::parse")
    if b is None:
        return
    a = An(F, b)
    rep.saw_graph(a)
    arg = ("param", 1, b.locals[1].get("name") or "_1")
    for e in a.exits("Ok"):
        for t in alts(ret(a, e)):
            v = field(t, "Ok.0")
            for x in alts(v):
                if x[0] != "agg":
                    continue
                for f, pl in x[2]:
                    lossy = sorted({last(y[1]) for y in walk(pl) if y[0] == "call" and last(y[1]) in BAD})
                    rep.check(contains(pl, arg) and not lossy, "argument-text", "%s/%s" % (last(x[1]), "+".join(lossy)), loc(b),
                              "RawArgument::%s carries the whole argument text" % last(x[1]))
