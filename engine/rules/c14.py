"""Type queries: no static of the library is mutable or interior-mutable (except write-once initialisation), no type
reachable from the builder, the content tree, the environment, the scope or the built-in functions contains a cell, lock
or atomic, no function of the library writes through a raw pointer or uses unsafe shared state, and rendering takes the
builder and the tree by shared reference. Path and provenance queries on the rendering of a page: the stack starts from a
clone of the base frame, the sections from an empty vector created for that page, and between the page's last token and
the root template's first the page's own frame is popped and a fresh base frame pushed. An effect-order query over the call
graph: on no path is the base frame or the configuration of the builder written to after a page has been rendered."""
from .common import *
from facts import rv_places

CELL = re.compile(r"^core::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell|SyncUnsafeCell)$|^std::sync::(mutex|rwlock|poison::mutex|poison::rwlock|nonpoison::mutex|nonpoison::rwlock|Mutex|RwLock|once_lock|OnceLock|lazy_lock|LazyLock)|^core::sync::atomic::|^core::cell::(once|lazy)::|once_cell::(sync|unsync)::|parking_lot|^std::thread::local|^std::sync::mpsc|crossbeam|dashmap")
ROOTS = ["stuart_core::Stuart", "stuart_core::Environment", "stuart_core::fs::Node", "stuart_core::process::Scope", "stuart_core::process::stack::StackFrame",
         "stuart_core::parse::contents::ParsedContents", "stuart_core::parse::markdown::ParsedMarkdown", "stuart_core::parse::LocatableToken", "stuart_core::parse::Token",
         "stuart_core::parse::function::Function", "stuart_core::process::iter::TokenIter", "stuart_core::config::Config"]


def type_walk(types, ix, path, out, seen, F):
    k = (id(types), ix)
    if k in seen:
        return
    seen.add(k)
    t = types[ix]
    if t.get("path"):
        if CELL.search(t["path"]):
            out.append((path, t["s"]))
            return
        adt(F, t["path"], path, out, seen)
    if t["k"] == "ptr" and t.get("mut"):
        out.append((path, t["s"]))
    if "t" in t and isinstance(t["t"], int):
        type_walk(types, t["t"], path, out, seen, F)
    for x in (t.get("args") or []) + (t.get("ts") or []):
        if isinstance(x, int):
            type_walk(types, x, path, out, seen, F)


def adt(F, p, path, out, seen):
    a = F.adts.get(p)
    if a is None or not p.startswith(("stuart_core::", "<stuart_core::")) or ("adt", p) in seen:
        return
    seen.add(("adt", p))
    for v in a["variants"]:
        for f in v["fields"]:
            type_walk(a["types"], f["ty"], "%s.%s" % (last(p), f["name"]), out, seen, F)


def run(F, rep, tier):
    # statics
    n = 0
    for b in F.local:
        if b.kind == "static" and b.krate == "stuart_core":
            n += 1
            s = b.types[b.sty]["s"] if b.sty is not None else ""
            once = re.search(r"lazy_static::lazy::Lazy<|::OnceLock<|::LazyLock<|::OnceCell<|::Lazy<", s) and not re.search(r"\b(Mutex|RwLock|RefCell|Cell|Atomic\w+|UnsafeCell)\b", s)
            rep.check(not b.smut and (b.freeze or bool(once)), "no-mutable-static", b.path, loc(b), "static %s: %s" % (b.path, s[:80]))
    rep.ok("no-mutable-static", "stuart-core", "%d statics inspected" % n)
    # thread locals
    for b in F.local:
        if b.krate == "stuart_core" and b.kind == "static" and "__RUST_STD_INTERNAL" in b.path:
            rep.bad("no-mutable-static", b.path, loc(b), "thread-local state in the library")
    # types
    out, seen = [], set()
    for p in ROOTS:
        adt(F, p, last(p), out, seen)
    for tr in (FN, FP):
        for nm, ty, items, raw in builtin_impls(F, tr):
            adt(F, ty.split("<")[0], last(ty), out, seen)
    for p, s in out:
        rep.bad("immutable-data", p, p, "%s has a type with interior mutability: %s" % (p, s[:80]))
    rep.ok("immutable-data", "stuart-core", "%d types reachable from the builder, the tree and the scope contain no cell, lock or atomic" % len([x for x in seen if x[0] == "adt"]))
    # raw writes
    cg = CallGraph(F)
    for b in F.local:
        if b.krate != "stuart_core":
            continue
        for p, sp, called, fn in cg.ext[b.id]:
            if re.search(r"core::ptr::(write|replace|swap|copy\w*|write_volatile)$|core::mem::transmute$|core::intrinsics::transmute|\*mut T.*::write$|UnsafeCell.*::get$|slice::from_raw_parts_mut$|Rc::get_mut_unchecked|core::cell::", p) and not b.path.startswith("<stuart_core::FUNCTION_PARSERS"):
                rep.bad("no-unsafe-write", "%s/%s" % (b.path, last(p)), "%s:%d (in %s)" % (sp[0], sp[1], b.path), "%s in the library" % p)
    after_rendering(F, rep, cg)
    # signatures
    for path in ("stuart_core::Stuart::build_node", "stuart_core::fs::Node::process", "stuart_core::fs::Node::process_html", "stuart_core::fs::Node::process_markdown", TOKENPROC):
        b = F.get(path)
        for i in range(1, (b.argc if b else 0) + 1):
            t = b.ty(i)
            if t["k"] == "ref" and t.get("mut") and b.types[t["t"]].get("path") in ("stuart_core::Stuart", "stuart_core::fs::Node", "stuart_core::Environment", "stuart_core::parse::LocatableToken"):
                rep.bad("shared", "%s/%d" % (path, i), loc(b), "%s takes %s" % (path, t["s"]))
            elif t["k"] == "ref":
                rep.ok("shared", loc(b), "%s takes %s" % (path, t["s"]))
    sc = F.adts.get("stuart_core::process::Scope")
    for f in (sc["variants"][0]["fields"] if sc else []):
        t = sc["types"][f["ty"]]
        if t["k"] == "ref" and sc["types"][t["t"]].get("path") == "stuart_core::Stuart":
            rep.check(not t.get("mut"), "shared", "Scope." + f["name"], "stuart-core/src/process/mod.rs", "the scope holds the builder by shared reference")
    # the page
    for path in ("stuart_core::fs::Node::process", "stuart_core::fs::Node::preprocess_markdown"):
        a = page_an(F, path)
        if a is not None:
            rep.saw_graph(a)
            for kind in ("Html", "Markdown"):
                page(F, rep, a, kind, path)


def page(F, rep, a, kind, path):
    c = page_case(a, kind)
    ps = params(a.body)
    envp = param_of(a.body, "stuart_core::Environment")
    proc = param_of(a.body, "stuart_core::Stuart")
    procs = c.events(re.escape(TOKENPROC) + "$")
    if not procs:
        return
    foreign = lambda t: any(y in ps for y in walk(t))
    for n, p in procs:
        sc = c.arg(n, 1)
        for y in walk(sc):
            if y[0] == "agg" and y[1].endswith("process::Scope"):
                for f, v in y[2]:
                    if f == "sections":
                        for x in alts(v):
                            if x[0] == "upd":
                                continue
                            rep.check(not foreign(x) and x[0] not in ("static",), "fresh-sections", "%s/%s" % (last(path), kind), a.where(n), "the sections of a %s page start empty" % kind)
                    elif f == "stack":
                        for x in alts(v):
                            if x[0] in ("field", "param", "static") and x[0] != "upd" and foreign(x):
                                rep.bad("fresh-stack", "%s/%s" % (last(path), kind), a.where(n), "the stack of a %s page is taken from %s" % (kind, show(x)[:80]))
                    elif f == "processor":
                        rep.ok("shared", a.where(n), "the builder is shared")
    # frames that enter the stack
    for n, p in c.events(r"Vec::(push|insert|extend\w*|append)$"):
        t = c.arg(n, len(n.term["args"]) - 1)
        for x in alts(t):
            if x[0] == "agg" and x[1].endswith("StackFrame"):
                d = dict(x[2])
                for f in ("variables", "output"):
                    v = d.get(f)
                    if v is not None and foreign(v) and not (contains(v, proc) and uses(v, lambda y: y[0] == "field" and y[2] == "base")):
                        rep.bad("fresh-frame", "%s/%s/%s" % (last(path), kind, f), a.where(n), "a frame of a %s page starts with %s" % (kind, show(v)[:80]))
                    elif v is not None:
                        rep.ok("fresh-frame", a.where(n), "the %s of the frame come from the base frame" % f)
    # between the page and the root template
    if not envp:
        return
    root = ("field", envp, "root")
    rsrc = [n for n, p in c.events(TOKENNEW) if contains(c.arg(n, 0), root)]
    rids = {n.id for n in rsrc}
    rprocs = {n.id for n, p in procs if uses(c.arg(n, 0), lambda y: contains(y, root) and y[0] == "call" and y[1].endswith("TokenIter::new"))}
    first = [n for n, p in procs if n.id not in rprocs]
    if not first or not rprocs:
        rep.ok("frame-replaced", loc(a.body), "the two stages of rendering a %s page were not told apart; not decided" % kind)
        return

    # where the page's frame goes away, and where the root template's comes from
    def pops(x):
        return x.call and re.search(r"Vec::(pop|clear|truncate|remove|swap_remove|drain|split_off)$|core::mem::(take|replace)$|Box::new_uninit$|Vec::new$|from_elem$", x.call[0])

    def pushes(x):
        return x.call and re.search(r"Vec::(push|insert|extend\w*)$|Box::new_uninit$|from_elem$|core::mem::replace$", x.call[0])
    starts = [m for n in first for m in c.succ(n)]
    for what, stop in (("the page's frame is removed", pops), ("a fresh frame is pushed", pushes)):
        p = c.path_to(starts, lambda x: x.id in rprocs, stop_node=stop)
        rep.check(p is None, "frame-replaced", "%s/%s" % (kind, what.split()[-1]), loc(a.body), "%s before the root template of a %s page is rendered" % (what, kind), a.path_lines(p))
    # frames with extra variables are for the page only
    for n, p in c.events(r"StackFrame::(with_variable|add_variable)$"):
        late = [x for x in rids if x in a.reach([n], stop_edge=c.stop)]
        t = c.result(n)
        used = [m for m, q in c.events(r"Vec::push$") if m.id in a.reach([n], stop_edge=c.stop) and contains(c.arg(m, 1), t) and m.id not in {z for s in first for z in [s.id]} and reachable_before(a, c, first, m)]
        for m in used:
            rep.bad("page-variables", "%s/%s" % (kind, last(p)), a.where(m), "the root template sees a variable added for the page")


def reachable_before(a, c, first, m):
    """m comes after a token of the page was processed."""
    return m.id in a.reach([x for n in first for x in c.succ(n)], stop_edge=c.stop)


def after_rendering(F, rep, cg):
    """What every page starts from is not written to once a page has been rendered."""
    from types import SimpleNamespace
    ad = F.adts.get("stuart_core::Stuart")
    fields = {f["name"] for f in ad["variants"][0]["fields"] if re.search(r"StackFrame|Config\b", ad["types"][f["ty"]]["s"])} if ad else set()
    render = {b.id for p in ("stuart_core::fs::Node::process", "stuart_core::fs::Node::preprocess_markdown") for b in [F.get(p)] if b is not None}
    if not fields or not render:
        rep.ok("base-fixed", "stuart-core", "the builder or the rendering of a page not found; not decided")
        return

    def shared(b, p):
        if not p or not p[1]:
            return False
        s = b.types[b.locals[p[0]]["ty"]]["s"]
        f = next((x for x in p[1] if x != "*"), None)
        return bool(re.fullmatch(r"(&mut |&'\w+ mut )?(stuart_core::|crate::)?Stuart", s)) and isinstance(f, list) and f[0] == "f" and f[2] in fields

    local = [b for b in F.local if b.krate == "stuart_core"]
    calls, writes = {}, {}
    for b in local:
        for i, blk in enumerate(b.blocks):
            ns = SimpleNamespace(id=("block", b.id, i), blocks=[blk], promoted=None, types=b.types)
            cg._scan(ns)
            calls[b.id, i] = {x.id for x, sp in cg.succ.pop(ns.id)}
            cg.ext.pop(ns.id, None)
            for s in blk["st"]:
                if s["k"] == "assign" and (shared(b, s.get("p")) or s["r"]["k"] == "ref" and s["r"].get("mut") and any(shared(b, p) for p in rv_places(s["r"]))):
                    writes.setdefault((b.id, i), s["sp"])
            t = blk["t"]
            if t["k"] == "call" and shared(b, t.get("dest")):
                writes.setdefault((b.id, i), t["sp"])

    def closure(seed):
        out = set(seed)
        while True:
            new = {b for (b, i), c in calls.items() if b not in out and c & out}
            if not new:
                return out
            out |= new
    renders, mutates = closure(render), closure({b for b, i in writes})
    for b in local:
        first = [i for i in range(len(b.blocks)) if calls[b.id, i] & renders]
        if not first:
            continue
        seen, work = set(), [s for i in first for s in targets(b.blocks[i]["t"])]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            work += targets(b.blocks[i]["t"])
        hit = [i for i in sorted(seen) if (b.id, i) in writes or calls[b.id, i] & mutates and not calls[b.id, i] & renders]
        own = [i for i in hit if (b.id, i) in writes]
        rep.check(not hit, "base-fixed", b.path, "%s:%d (in %s)" % (*writes[b.id, own[0]][:2], b.path) if own else loc(b),
                  "the base frame and the settings are not written to after a page has been rendered")
    rep.ok("base-fixed", "stuart-core", "%d bodies that render pages, %d writes to %s" % (len({b for b, i in calls if b in renders}), len(writes), ", ".join(sorted(fields))))


def targets(t):
    return [x for k in ("t", "otherwise") for x in [t.get(k)] if isinstance(x, int)] + [x[1] if isinstance(x, (list, tuple)) else x for x in t.get("targets") or []]
