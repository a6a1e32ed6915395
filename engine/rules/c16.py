"""Path queries on the inlined graph of Node::merge and Node::save. In merge, from each incoming child: it may be added only
after a lookup among the existing children by name (the comparison is read from the closure) found nothing; where something
was found every path must merge the two recursively, with the incoming one known to be a directory, or fail; no path drops
the child; and the existing children are never removed or replaced. In save, every call that creates a file must be
exclusive (create_new, or dominated by a check that nothing exists there) and its failure must reach a failing exit."""
from .common import *
from .c15 import creations
from ceval import Walk, ev, Tag, UNK

DESTROY = re.compile(r"Vec::(pop|clear|remove|swap_remove|truncate|drain|retain\w*|dedup\w*|split_off)$|core::mem::(take|replace|swap)$")
LOOK = ("find", "position", "any", "all", "contains", "contains_key", "get", "get_mut", "find_map", "rposition")


def names_of(t):
    return t[0] == "field" and t[2] in ("File.name", "Directory.name") or t[0] == "call" and t[1].endswith("fs::Node::name")


def root(t):
    while t[0] in ("field", "index") or t[0] == "call" and t[2]:
        t = t[1] if t[0] in ("field", "index") else t[2][0]
    return t


def under(x, t):
    while x != t and x[0] == "field":
        x = x[1]
    return x == t


def run(F, rep, tier):
    merge(F, rep)
    saving(F, rep)
    both(F, rep)


def merge(F, rep):
    b = F.get("stuart_core::fs::Node::merge")
    if b is None:
        rep.bad("anchor", "Node::merge", "stuart-core/src/fs/mod.rs", "Node::merge not found")
        return
    a = An(F, b)
    rep.saw_graph(a)
    me = ("param", 1, b.locals[1].get("name") or "_1")
    other = ("param", 2, b.locals[2].get("name") or "_2")
    mine, theirs = ("field", me, "Directory.children"), ("field", other, "Directory.children")
    outer = [n for n, p in a.events(r"Iterator::next$") if contains(a.arg(n, 0), theirs) and not contains(a.arg(n, 0), mine)]
    ok = {e.id for e in a.exits("Ok")}
    if not outer:
        for n, p in a.events(r"Vec::(extend\w*|append)$|Extend::extend$"):
            if contains(a.arg(n, 0), mine) and not uses(a.arg(n, 1), lambda t: t[0] == "call" and last(t[1]) in ("filter", "filter_map", "map")):
                rep.bad("looked-up-first", "Node::merge/extend", a.where(n), "children are added without looking for conflicts")
        rep.ok("looked-up-first", loc(b), "the loop over the incoming children was not recognised; not decided")
        return
    els = [("field", a.result(n), "Some.0") for n in outer]
    inner = {n.id for n, p in a.events(r"Iterator::next$") if contains(a.arg(n, 0), mine)}

    def lookup(t):
        return t[0] == "call" and last(t[1]) in LOOK and t[2] and contains(t[2][0], mine)

    def named(f):
        return f[0] == "Eq" and f[2] is not None and all(any(names_of(x) for x in walk(y)) for y in f[1:3]) and any(contains(f[1], e) or contains(f[2], e) for e in els)

    def absent(f):
        if f[0] == "variant" and has_variant(f, "None") and (lookup(f[1]) or f[1][0] == "call" and last(f[1][1]) == "next" and f[1][2] and contains(f[1][2][0], mine) and not contains(f[1][2][0], theirs)):
            return True
        return f[0] == "is" and lookup(f[1]) and f[3] == (last(f[1][1]) == "all")

    def present(f):
        if named(f) and f[3]:
            return True
        if f[0] == "variant" and has_variant(f, "Some") and lookup(f[1]):
            return True
        return f[0] == "is" and lookup(f[1]) and f[3] == (last(f[1][1]) != "all")
    adds = [n for n, p in a.events(r"Vec::(push|insert)$|VecDeque::push_back$") if contains(a.arg(n, 0), mine)]
    recs = [n for n, p in a.events() if n.call[2] is not None and n.call[2].path == b.path] + [n for n in a.entries(r"Node::merge$") if n.frame is not None]
    add_ids, rec_ids, next_ids = {n.id for n in adds}, {n.id for n in recs}, {n.id for n in outer}
    edge = lambda pred: (lambda x, y, l: any(pred(f) for f in a.atoms(x, y, l)) if l else False)
    known = a.edges(present) and a.edges(absent)
    if not known:
        rep.check(not adds or bool(a.edges(present) or a.edges(absent)) or any(re.search("HashMap|BTreeMap|HashSet", p) for n, p in a.events()), "looked-up-first", "Node::merge", loc(b), "the existing children are searched for the incoming name")
        return
    for n in outer:
        starts = [m for x, m, l in a.edges(lambda f: has_variant(f, "Some") and f[1] == a.result(n))]
        path = a.path_to(starts, lambda x: x.id in add_ids, stop_edge=edge(absent), stop_node=lambda x: x.id in next_ids)
        rep.check(path is None, "looked-up-first", "Node::merge", a.where(n), "a child is added only after no existing child with its name was found", a.path_lines(path))
        path = a.path_to(starts, lambda x: x.id in ok or x.id in next_ids, stop_node=lambda x: x.id in add_ids or x.id in rec_ids)
        rep.check(path is None, "nothing-dropped", "Node::merge", a.where(n), "every incoming child is added or merged", a.path_lines(path))
    pe = a.edges(present)
    for x, m, l in pe:
        path = a.path_to([m], lambda y: y.id in ok or y.id in next_ids or y.id in add_ids, stop_node=lambda y: y.id in rec_ids, stop_edge=edge(absent))
        rep.check(path is None, "conflict-is-an-error", "Node::merge", loc(b), "where a child with the same name exists, the two are merged or the merge fails", a.path_lines(path))
    for n in recs:
        t = a.arg(n, 1)
        dirf = lambda f: f[0] == "variant" and ((f[2] == "Directory" and f[3]) or (f[2] == "File" and not f[3]))
        rep.check(a.every_path_has(n, lambda f: dirf(f) and (f[1] == t or contains(f[1], t) or contains(t, f[1]) and f[1] != other)), "both-directories", "Node::merge/incoming", a.where(n), "only a directory is merged into an existing one")
        c = a.arg(n, 0)
        rep.check(a.every_path_has(n, lambda f: dirf(f) and f[1] != me and f[1] != other and not under(f[1], t)), "both-directories", "Node::merge/existing", a.where(n), "only an existing directory is merged into")
    for n in adds:
        t = a.arg(n, len(n.term["args"]) - 1)
        rep.check(t in els or not any(contains(t, e) for e in els), "added-as-is", "Node::merge", a.where(n), "the incoming child itself is added")
    for n, p in a.events():
        if DESTROY.search(p) and contains(a.arg(n, 0), mine):
            rep.bad("never-removed", "Node::merge/" + last(p), a.where(n), "existing children are removed or replaced by %s" % last(p))
    # the comparison inside the lookup
    seen = set()
    for n, p in a.events():
        t = a.result(n) if n.kind != "h" else None
        for x in walk(t) if t is not None else ():
            if lookup(x):
                for y in walk(x):
                    if y[0] == "agg" and y[1].startswith("closure:"):
                        seen.add(y[1][8:])
    for f in {x[1] for n in a.g.nodes for m, l in n.succ if l for x in a.atoms(n, m, l) if isinstance(x[1], tuple) and lookup(x[1])}:
        for y in walk(f):
            if y[0] == "agg" and y[1].startswith("closure:"):
                seen.add(y[1][8:])
    for cid in seen:
        cb = F.bodies.get(cid)
        if cb is not None:
            closure(F, rep, cb)


def closure(F, rep, cb):
    ca = An(F, cb)
    rep.saw_graph(ca)
    ts = [x for n in ca.g.nodes for m, l in n.succ if l for f in ca.atoms(n, m, l) for t in f[1:3] if isinstance(t, tuple) for x in walk(t) if names_of(x)]
    ts += [x for e in ca.exits() for x in walk(ret(ca, e)) if names_of(x)]
    roots = sorted({repr(root(t)) for t in ts})
    if len(roots) != 2:
        rep.ok("by-name", loc(cb), "comparison not recognised; not decided")
        return
    for same in (True, False):
        env = {t: "same" if same else "n%d" % roots.index(repr(root(t))) for t in ts}
        w = Walk(ca, env)
        vals = set()
        sure = ca.reach([ca.g.entry], stop_edge=w.certain)
        for e in ca.exits():
            if e.id in sure:
                v = ev(ret(ca, e), env)
                vals.add(v if isinstance(v, bool) else None)
        rep.check(not (vals - {same, None}), "by-name", "Node::merge/closure", loc(cb), "two children conflict exactly when their names are equal")


def saving(F, rep):
    save = F.get("stuart_core::fs::Node::save")
    if save is None:
        return
    cg = CallGraph(F)
    todo = [save]
    a = An(F, save)
    todo += [n.call[2] for n, p in a.events() if n.call[2] is not None]
    for b in {x.id: x for x in todo}.values():
        a = An(F, b)
        rep.saw_graph(a)
        ok = {e.id for e in a.exits("Ok")}
        for n, i, data in creations(a):
            p = n.call[0]
            path_t = a.arg(n, i)
            excl = p.endswith("File::create_new") or "OpenOptions" in p and uses(a.arg(n, 0), lambda t: t[0] == "call" and last(t[1]) == "create_new" and t[2][1] == ("const", True))
            free = lambda f: f[0] == "is" and not f[3] and f[1][0] == "call" and last(f[1][1]) in ("exists", "try_exists") and f[1][2] and f[1][2][0] == path_t
            rep.check(excl or a.every_path_has(n, free), "exclusive", "%s/%s" % (a.site(n), last(p)), a.where(n), "%s never replaces a file that was already published" % last(p))
            t = a.result(n)
            fail = a.edges(lambda f: has_variant(f, "Err") and (f[1] == t or f[1][0] == "call" and f[1][2] and f[1][2][0] == t))
            # what a closure passed to an iterator adaptor returns is followed by C04
            path = a.path_to([m for _, m, _ in fail], lambda x: x.id in ok, stop_edge=lambda x, y, l: bool(l) and l[0] == "hofret")
            rep.check(path is None, "failure-reported", "%s/%s" % (a.site(n), last(p)), a.where(n), "the failure to create a file fails the save", a.path_lines(path))
        for n, p in a.events():
            if n.call[2] is None and effects.FS_MUT.search(p) and last(p) in ("rename", "copy", "hard_link", "remove_file"):
                rep.bad("exclusive", "%s/%s" % (a.site(n), last(p)), a.where(n), "%s may replace a published file" % last(p))


def both(F, rep):
    if F.get(BUILD) is None:
        return
    a = An(F, F.get(BUILD), inline=lambda x, f: x.krate == "stuart")
    rep.saw_graph(a)
    pd = self_field(a, "project_dir")
    got, unknown = set(), False
    merges = a.calls(r"stuart_core::(Stuart::merge_output|fs::Node::merge)$")
    for n in a.calls(r"stuart_core::fs::Node::(new|new_with_plugins)$"):
        for base, comps in pathparts(a.arg(n, 0)):
            if base != pd:
                unknown = True
                continue
            for cs in refine(a, n, comps):
                got.add("/".join(c if isinstance(c, str) else "?" for c in cs))
                unknown |= any(not isinstance(c, str) for c in cs)
        t = a.result(n)
        used = [m for m in merges if contains(a.arg(m, 1), t)]
        rep.check(bool(used) or not merges, "merged", BUILD, a.where(n), "the tree that was read is merged into the output")
        okx = {e.id for e in a.exits("Ok")}
        if used:
            ids = {m.id for m in used}
            path = a.path_to([m for m, l in n.succ], lambda x: x.id in okx, stop_node=lambda x: x.id in ids)
            rep.check(path is None, "merged", BUILD + "/every-path", a.where(n), "no path to success skips the merge", a.path_lines(path))
    for s in ("static", "temp"):
        rep.check(s in got or unknown, "merged", s, loc(a.body), "`%s` is merged into the output" % s)
