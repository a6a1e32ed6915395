"""Order query on the exploded graph of StuartContext::build (command-line crate, Stuart::save and Stuart::save_metadata
entered): every call that changes the filesystem (table in engine/effects.py) must be preceded on every path by the
success of the pre-build scripts and of Stuart::build, and no step that can still fail because of the project (pre-build
script, Stuart::build, reading or merging a tree) may be reachable from it. By call graph, those steps themselves, and
everything the build and bench commands do before StuartContext::build, contain no filesystem change outside the plugin
cache."""
from .common import *


def is_step(n, a):
    p = n.call[2].path if n.call[2] is not None else n.call[0]
    if p in ("stuart_core::Stuart::build", "stuart_core::Stuart::merge_output", "stuart_core::fs::Node::merge", "stuart_core::fs::Node::new",
             "stuart_core::fs::Node::new_with_plugins"):
        return p.rsplit("::", 2)[-2] + "::" + p.rsplit("::", 1)[-1]
    if p.startswith("std::process::Command::") and last(p) in ("output", "status", "spawn"):
        if uses(a.arg(n, 0), lambda t: t[0] == "field" and t[2] == "on_pre_build"):
            return "pre-build script"
    return None


def run(F, rep, tier):
    cg = CallGraph(F)
    direct, mut = mutators(F, cg)
    a = build_an(F)
    if a is None:
        rep.bad("anchor", "StuartContext::build", "stuart/src/build.rs", "StuartContext::build not found")
        return
    rep.saw_graph(a)
    steps = {}
    for n in a.g.nodes:
        if n.call and n.term["k"] == "call" and n.kind == "b":
            s = is_step(n, a)
            if s:
                steps[n.id] = s
    builds = [n for n in a.calls(r"stuart_core::Stuart::build$")]
    rep.check(bool(builds), "anchor", "Stuart::build", loc(a.body), "the build calls Stuart::build")
    rep.check("pre-build script" in steps.values(), "anchor", "pre-build", loc(a.body), "the build runs the pre-build scripts")
    evs = mutation_events(a, mut)
    rep.check(bool(evs), "anchor", "mutations", loc(a.body), "the build changes the filesystem at some point")
    bid = {n.id for n in builds}
    for n, p in evs:
        who = "%s/%s" % (a.site(n), last(p))
        path = a.path_to([n], lambda x: x.id in steps and x is not n)
        rep.check(path is None, "changes-come-last", who, a.where(n), "after %s no step that can fail is left%s" % (last(p), "" if path is None else ": %s follows" % steps[path[-1].id]), a.path_lines(path))
        path = a.path_to([a.g.entry], lambda x: x is n, stop_node=lambda x: x.id in bid and x is not n)
        rep.check(path is None, "after-build", who, a.where(n), "%s happens only after Stuart::build was run" % last(p), a.path_lines(path))
        path = a.path_to([m for b in builds for m, l in b.succ], lambda x: x is n,
                         stop_edge=lambda x, m, l: any(has_variant(f, "Ok") and f[1][0] == "call" and f[1][1].endswith("Stuart::build") for f in a.atoms(x, m, l)))
        rep.check(path is None, "after-success", who, a.where(n), "%s happens only after Stuart::build returned Ok" % last(p), a.path_lines(path))
    # the steps themselves change nothing
    for p in ("stuart_core::Stuart::build", "stuart_core::Stuart::merge_output", "stuart_core::fs::Node::new", "stuart_core::fs::Node::new_with_plugins", "stuart_core::fs::Node::merge",
              "stuart::scripts::Scripts::execute_pre_build", "stuart::scripts::Scripts::from_directory"):
        b = F.get(p)
        if b is None:
            continue
        r = cg.reachable([b], stop=lambda c: c.krate == "stuart" and b.krate == "stuart_core")
        hit = [F.bodies[i] for i in r if i in direct]
        rep.saw(*[F.bodies[i].path for i in r if F.bodies[i].krate in ("stuart", "stuart_core")])
        rep.check(not hit, "steps-are-pure", p, loc(b), "%s changes nothing on disk%s" % (p, ": " + " -> ".join(cg.chain(r, hit[0])) if hit else " (%d functions reachable)" % len(r)))
    # nothing before the build in the commands that build
    ctx = a.body
    for p in ("stuart::build", "stuart::bench", INIT):
        b = F.get(p)
        if b is None:
            continue
        r = cg.reachable([b], stop=lambda c: c is ctx or c.path.startswith("stuart::plugins::"))
        hit = [F.bodies[i] for i in r if i in direct]
        rep.check(not hit, "nothing-before", p, loc(b), "%s changes nothing on disk before the build%s" % (p, ": " + " -> ".join(cg.chain(r, hit[0])) if hit else ""))
