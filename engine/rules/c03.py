"""Effect reachability over the workspace call graph: from the parsers, the rendering entry points (Node::process,
Node::preprocess_markdown, Stuart::build_node) and every built-in Function::execute and FunctionParser::parse, with
dynamic calls resolved to every built-in implementation, no function of the standard library or of a dependency that
touches the filesystem, processes, the network, environment variables, clocks, randomness, threads or the terminal
(tables in engine/effects.py) is reachable, nor is a time in the machine's own time zone made; and no unsafe block's raw-pointer or extern call is."""
from .common import *

ROOTS = [r"^stuart_core::parse::parse_html$", r"^stuart_core::parse::parse_markdown$", r"^stuart_core::parse::markdown::parse_markdown$", r"^stuart_core::fs::Node::(process|process_html|process_markdown|preprocess_markdown|get_at_path)$",
         r"^stuart_core::Stuart::(build_node|preprocess_markdown_node|merge_output|new_from_node)$", r"^stuart_core::fs::Node::merge$"]


def run(F, rep, tier):
    cg = CallGraph(F)
    roots = [b for b in F.local if any(re.search(r, b.path) for r in ROOTS)]
    names = {b.path for b in roots}
    for tr in (FN, FP):
        for (ty, items, raw) in F.impls_of(tr):
            roots += [b for b in items.values() if b.krate == "stuart_core"]
    rep.check(len(roots) > 30, "anchor", "roots", "stuart-core/src", "%d rendering entry points found" % len(roots))
    seen = cg.reachable(roots, stop=lambda c: c.krate == "stuart")
    # one obligation per root
    bad = {}
    for i in seen:
        b = F.bodies[i]
        if b.krate not in ("stuart_core",):
            continue
        rep.saw(b)
        for (p, sp, called, fn) in cg.ext[i]:
            k = effects.kind(p)
            if k:
                bad.setdefault((b.path, p), (b, k, sp))
        # a time in the machine's own time zone is made from the environment and the filesystem
        for ty in sorted({b.types[l["ty"]]["s"] for l in b.locals if "Local" in b.types[l["ty"]]["s"]}):
            if re.search(r"\bchrono::(offset::)?(local::)?Local\b", ty):
                bad.setdefault((b.path, "chrono::Local"), (b, "environment", loc2(b)))
    n = 0
    for r in roots:
        n += 1
        rs = cg.reachable([r], stop=lambda c: c.krate == "stuart")
        hit = [(b, p, k, sp) for (bp, p), (b, k, sp) in bad.items() if b.id in rs]
        if not hit:
            rep.ok("no-effect", loc(r), "%d workspace functions reachable, no effect" % len(rs))
        for b, p, k, sp in hit:
            rep.bad("no-effect", "%s/%s" % (root_fn(F, b).path, p), "%s:%d (in %s)" % (sp[0], sp[1], b.path), "%s: %s is reachable from rendering: %s" % (k, p, " -> ".join(cg.chain(rs, b))))
    rep.counts["external_callees_checked"] = sum(len(cg.ext[i]) for i in seen)
    # the in-memory lookup hands out only parts of the tree it was given
    g = F.get("stuart_core::fs::Node::get_at_path")
    if g is not None:
        a = An(F, g)
        rep.saw_graph(a)
        me = ("param", 1, g.locals[1].get("name") or "_1")
        ps = []
        for e in a.exits():
            for t in alts(ret(a, e)):
                ok = (t[0] == "agg" and t[1].endswith("None")) or contains(t, me) or not uses(t, lambda x: x[0] in ("static", "item"))
                rep.check(ok, "lookup-inside-tree", "get_at_path", loc(g), "the lookup returns a part of the tree it was called on, or nothing")


def loc2(b):
    m = re.match(r"(.+?):(\d+)", loc(b))
    return (m.group(1), int(m.group(2))) if m else (loc(b), 0)
