"""Abstract interpretation of `for` with symbolic item pipelines: for every combination of the named arguments the parser
is interpreted on a call with those arguments, and `execute` on the result; the abstract value of a collection or iterator
is the sequence of stages (sorted by a key, reversed, so many skipped, so many taken) it has gone through, and where the
loop fetches an item that sequence must be the documented one. The item must be bound to the loop variable, and the
typestate analysis of the block shows that every iteration starts at the same token and runs the whole body."""
import itertools
from .common import *
from .c06 import judge, altered
from world import Args, Pipeline, Loop, staged
from graph import Graph

KEYS = r"not-rewound|iterated-and-skipped|not-processed/rendered|processed-twice|left-early"
SKIP, TAKE = 2, 3
SOURCES = {"a variable": ("Variable", "data.list"), "a JSON file": ("String", "a/b.json"), "a directory": ("String", "a/b/")}


def run(F, rep, tier):
    pb, eb = functions(F).get("for", (None, None))
    if pb is None or eb is None:
        rep.ok("stages", "-", "`for` is not recognised; not decided")
        return
    judge(F, rep, "for", eb, Loop(F), KEYS)
    directions = {}

    def direction(clo, m):
        if (clo, m) not in directions:
            directions[(clo, m)] = sorting(F, clo, m)
        return directions[(clo, m)]
    for what, src in SOURCES.items():
        for sortby, order, skip, limit in itertools.product((0, 1), (None, "asc", "desc"), (None, SKIP, 1, 0), (None, TAKE, 1, 0)):
            given = [sortby, order, skip is not None, limit is not None]
            few = skip in (None, SKIP) and limit in (None, TAKE)
            if tier == "quick" and not few and (what != "a variable" or order != "desc"):
                continue
            if tier == "quick" and what != "a variable" and sum(map(bool, given)) not in (0, 4):
                continue
            named = [x for x in (("limit", ("Integer", limit)), ("sortby", ("Variable", "v.one.two")), ("order", ("String", order)), ("skip", ("Integer", skip))) if dict(zip(("sortby", "order", "skip", "limit"), given))[x[0]]]
            want = (["sort:one.two"] if sortby else []) + (["rev"] if order == "desc" else []) + (["skip:%d" % skip] if skip else []) + (["take:%d" % limit] if limit is not None else [])
            for l in [named, named[::-1]][:1 if len(named) < 2 else 2]:
                one(F, rep, pb, eb, what, src, l, want, direction)


def one(F, rep, pb, eb, what, src, named, want, direction):
    label = " ".join("%s=%s" % (k, x[1]) for k, x in named) or "no options"
    pw = Args(F, [("Variable", "v"), src], named)
    try:
        G = Graph(F, pb, world=pw, widen=2000, max_nodes=30000, inline=lambda x, f: x.krate == "stuart_core")
    except TooBig:
        G = None
    if G is None or len(pw.parsed) != 1 or pw.parsed[0] is None:
        rep.ok("stages", loc(pb), "%s over %s: the parsed call is not determined (%d results); not decided" % (label, what, len(pw.parsed)))
        return
    w = Pipeline(F, pw.parsed[0], direction)
    try:
        H = Graph(F, eb, world=w, widen=4000, max_nodes=40000, inline=lambda x, f: (page_opaque(x, f) or "StackFrame" in x.path) and x.krate == "stuart_core")
    except TooBig:
        rep.ok("stages", loc(eb), "%s: too many states; not decided" % label)
        return
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes) + len(H.nodes)
    rep.saw(*{f.body.path for f in G.frames + H.frames if f.body.krate == "stuart_core"})
    for (got, size), n in sorted(w.fetched.items(), key=str):
        have = normal(got[2:].split("|"))
        exp = ["sort:?" if x.startswith("sort:") and "sort:?" in have else x for x in want]
        if size is not None and staged(have, size) == staged(exp, size):
            rep.ok("stages", n.loc(), "%s over %s, %d items: %s" % (label, what, size, " then ".join(have) or "as they are"))
        elif have != exp:
            rep.bad("stages", "%s/%s" % ("+".join(k for k, _ in named) or "none", ">".join(have) or "none"), n.loc(),
                    "`for` with %s over %s: the items%s have gone through %s, not %s" % (label, what, "" if size is None else " (of %d)" % size, " then ".join(map(stage, have)) or "no stage", " then ".join(exp) or "no stage"))
        else:
            rep.ok("stages", n.loc(), "%s over %s: %s" % (label, what, " then ".join(have) or "as they are"))
    for (name, item), n in sorted(w.bound.items(), key=str):
        if item == "s:<item>" and name is not None and name != "v":
            rep.bad("binding", "name", n.loc(), "the item is bound to %r, not to the loop variable" % name)
        elif item == "s:<item>":
            rep.ok("binding", n.loc(), "the item fetched is bound to the loop variable")
    if not w.fetched:
        rep.ok("stages", loc(eb), "%s over %s: the pipeline is not recognised (%s); not decided" % (label, what, ", ".join(sorted(w.lostat))[:80]))


def stage(x):
    return "a choice by their contents" if x == "some" else x


def normal(l):
    out = []
    for x in l:
        if not x or x == "skip:0":
            continue
        if x.startswith("desc:"):
            out += ["sort:" + x[5:], "rev"]
        elif x.startswith("asc:"):
            out.append("sort:" + x[4:])
        else:
            out.append(x)
        if out[-2:] == ["rev", "rev"]:
            del out[-2:]
    return out


def chosen(a, item):
    """Whether the outcome of a predicate depends on the item it is given, and on nothing else."""
    dep = False
    for e in a.exits():
        for t in alts(ret(a, e)):
            for x in [t] + [f[1] for f in a.facts_at(e)] + [f[2] for f in a.facts_at(e) if isinstance(f[2], tuple)]:
                for y in walk(x):
                    if y[0] == "param" and y != item:
                        return False
                dep |= contains(x, item)
    return dep


def sorting(F, clo, m):
    """Whether a comparator or key closure sorts ascending or descending by the value at the key, or by something made of it; '?' if unknown."""
    b = F.bodies.get(clo)
    if b is None:
        return "?"
    a = An(F, b, inline=lambda x, f: x.krate == "stuart_core" and last(x.path) != "get_value")
    ps = params(b)[1:]
    if m == "choosing":
        return "by-item" if len(ps) == 1 and chosen(a, ps[0]) else "?"
    out = set()
    for e in a.exits():
        for t in alts(ret(a, e)):
            if any(altered(y) for y in walk(t)):
                out.add("altered")
                continue
            flip = uses(t, lambda y: y[0] == "agg" and y[1].endswith("Reverse") or y[0] == "call" and last(y[1]) in ("reverse", "Reverse"))
            if "key" in m:
                if t[0] != "const":
                    out.add(("desc" if flip else "asc") if len(ps) == 1 and contains(t, ps[0]) else "?")
                continue
            c = [y for y in walk(t) if y[0] == "call" and last(y[1]) in ("cmp", "partial_cmp", "total_cmp") and len(y[2]) == 2]
            if len(c) != 1 or len(ps) != 2:
                out.add("?")
                continue
            x, y = c[0][2]
            if contains(x, ps[0]) and contains(y, ps[1]) and not contains(x, ps[1]):
                out.add("desc" if flip else "asc")
            elif contains(x, ps[1]) and contains(y, ps[0]) and not contains(x, ps[0]):
                out.add("asc" if flip else "desc")
            else:
                out.add("?")
    return next(iter(out)) if len(out) == 1 else "?"
