"""Ownership and drop order by type. From the types of all struct fields it is computed which values own a loaded library
(libloading's Library, or a `dyn Manager` implemented by an owner of one) and which own plugin code (Plugin, dyn
FunctionParser, Function, NodeParser, NodeProcessor). Fields are dropped in declaration order, so in every struct, enum
variant and tuple an owner of plugin code must be declared before an owner of its library; the same order is required of
the drops of local variables in the MIR. Where a library is opened, every path that registers a plugin must also hand the
library over to an owner; and no call or drop may release a library on its own."""
from .common import *

OBJ = {"stuart_core::functions::FunctionParser", "stuart_core::functions::Function", "stuart_core::plugins::NodeParser", "stuart_core::plugins::NodeProcessor"}
MANAGER = "stuart_core::plugins::Manager"
RELEASE = re.compile(r"Vec::(pop|clear|remove|swap_remove|truncate|drain|retain\w*|dedup\w*|split_off|extract_if)$|core::mem::(take|replace|swap|drop)$|Option::(take|replace|insert)$"
                     r"|(HashMap|BTreeMap)::(remove|clear|retain|drain|insert)$|Library::close$|ptr::drop_in_place$|ManuallyDrop::drop$")


class Own:
    def __init__(self, F):
        self.F = F
        self.memo = {}

    def adt(self, path, seen=()):
        if path in self.memo:
            return self.memo[path]
        if path in seen:
            return frozenset()
        a = self.F.adts.get(path)
        out = set()
        if re.search(r"(^|::)libloading::.*Library$|^libloading::.*Library$", path):
            out.add("lib")
        elif a is not None and a["local"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    out |= self.ty(a["types"], f["ty"], seen + (path,))
        r = frozenset(out)
        if not seen:
            self.memo[path] = r
        return r

    def ty(self, types, ix, seen=()):
        t = types[ix]
        k = t["k"]
        if k == "adt":
            if t["path"].endswith(("ManuallyDrop", "PhantomData", "Weak")):
                return frozenset()
            out = set(self.adt(t["path"], seen))
            if t["path"].split("::")[0] not in ("stuart", "stuart_core"):
                for x in t["args"]:
                    out |= self.ty(types, x, seen)
            else:
                for x in t["args"]:
                    out |= self.ty(types, x, seen)
            return frozenset(out)
        if k == "dyn":
            if t["path"] in OBJ:
                return frozenset({"obj"})
            if t["path"] == MANAGER:
                out = {"obj"}
                for s, items, raw in self.F.impls_of(MANAGER):
                    p = raw.get("self_path") or s
                    if isinstance(p, str):
                        out |= self.adt(p.split("<")[0], seen)
                return frozenset(out)
            return frozenset()
        if k in ("tuple", "array", "slice"):
            out = set()
            for x in (t.get("args") or ([t["t"]] if "t" in t else [])):
                out |= self.ty(types, x, seen)
            return frozenset(out)
        return frozenset()


def field_order(own, rep, name, where, fields):
    """fields: [(name, owned set)] in declaration order."""
    libs = []
    n = 0
    for f, o in fields:
        if "obj" in o and "lib" not in o:
            for g in libs:
                n += 1
                rep.bad("drop-order", "%s/%s-before-%s" % (name, g, f), where, "`%s`, which keeps the library loaded, is dropped before `%s`, which may hold objects of the plugin" % (g, f))
        if "lib" in o:
            libs.append(f)
    if libs:
        rep.ok("drop-order", where, "%s: the owner of the library, `%s`, is dropped last" % (name, libs[-1]))


def run(F, rep, tier):
    own = Own(F)
    libs = 0
    for path, a in sorted(F.adts.items()):
        if not a["local"]:
            continue
        for v in a["variants"]:
            fs = [(f["name"], own.ty(a["types"], f["ty"])) for f in v["fields"]]
            if any("lib" in o for f, o in fs):
                libs += 1
                if a.get("has_drop"):
                    rep.ok("drop-order", path, "has a Drop implementation; its body is covered by the release rule")
                field_order(own, rep, path, "%s:%d (%s)" % (a["span"][0], a["span"][1], path), fs)
    rep.check(libs > 0, "anchor", "owners", "stuart/src/plugins/mod.rs", "%d types own a loaded library" % libs)
    for c in F.crates.values():
        for t in c["types"]:
            if t["k"] == "tuple" and len(t["args"]) > 1:
                fs = [(str(i), own.ty(c["types"], x)) for i, x in enumerate(t["args"])]
                if any("lib" in o for f, o in fs):
                    field_order(own, rep, t["s"], t["s"], fs)
    cg = CallGraph(F)
    for b in F.local:
        rep.saw(b.path)
        for (p, sp, called, fn) in cg.ext[b.id]:
            if RELEASE.search(p):
                o = set()
                for x in fn.get("rtargs") or fn.get("targs") or []:
                    if isinstance(x, int):
                        o |= own.ty(b.types, x)
                bad = p.endswith("Library::close") or "lib" in o and not (p.endswith("mem::drop") and "obj" in o and holds_stuart(F, b, fn))
                if "lib" in o or p.endswith("Library::close"):
                    rep.check(not bad, "never-released", "%s/%s" % (b.path, last(p)), "%s:%d (in %s)" % (sp[0], sp[1], b.path), "%s releases a library" % p)
        drops = []
        for i, blk in enumerate(b.blocks):
            t = blk["t"]
            if t["k"] == "drop":
                o = own.ty(b.types, t["ty"])
                if o:
                    drops.append((i, o, t))
        opens = any(re.search(r"Library::(new|open)$", p) for p, sp, c, fn in cg.ext[b.id])
        for i, o, t in drops:
            if o == {"lib"} and not opens and [x for x in t["p"][1] if x != "*"] and normal(b, i):
                rep.bad("never-released", b.path + "/drop", "%s:%d (in %s)" % (t["sp"][0], t["sp"][1], b.path), "a library is dropped on its own")
        for i, o, t in drops:
            if "lib" in o and normal(b, i):
                later = after(b, t["t"])
                for j, o2, t2 in drops:
                    if j in later and "obj" in o2 and "lib" not in o2 and t2["p"][0] != t["p"][0]:
                        rep.bad("drop-order", b.path + "/locals", "%s:%d (in %s)" % (t2["sp"][0], t2["sp"][1], b.path), "a local that may hold objects of a plugin is dropped after the owner of the library")
        if drops:
            rep.ok("drop-order", loc(b), "drops of locals in order")
        if opens:
            opened(F, rep, own, root_fn(F, b))


def holds_stuart(F, b, fn):
    return any(b.types[x]["k"] == "adt" and b.types[x]["path"] in ("stuart_core::Stuart", "stuart::build::StuartContext") for x in fn.get("targs") or [] if isinstance(x, int))


_norm = {}


def normal(b, i):
    """Whether block i is reachable without unwinding."""
    s = _norm.get(b.id)
    if s is None:
        s = _norm[b.id] = after(b, 0)
    return i in s


def after(b, i):
    seen, work = {i}, [i]
    while work:
        t = b.blocks[work.pop()]["t"]
        for m in ([t["t"]] if isinstance(t.get("t"), int) else []) + [x[1] for x in t.get("targets") or []] + ([t["otherwise"]] if isinstance(t.get("otherwise"), int) else []):
            if m not in seen:
                seen.add(m)
                work.append(m)
    return seen


def opened(F, rep, own, b):
    a = An(F, b)
    rep.saw_graph(a)

    def targs(n):
        f = n.term["f"]
        fn = f.get("fn") if f["k"] == "const" else None
        o = set()
        for x in (fn.get("rtargs") or fn.get("targs") or []) if fn else []:
            if isinstance(x, int):
                o |= own.ty(n.frame.body.types, x)
        return o

    def keeps(n):
        if n.term["k"] == "call" and a.is_event(n):
            p = n.call[0]
            if re.search(r"(::push|::insert|::push_back|mem::forget|ManuallyDrop::new|Box::leak|::extend|Box::new|Rc::new|Arc::new)$", p) and "lib" in targs(n):
                return True
        for s in n.frame.body.blocks[n.bb]["st"]:
            if s["k"] == "assign" and s["r"]["k"] == "agg" and s["r"].get("a") in ("adt", "tuple") and not str(s["r"].get("path")).startswith("core::"):
                for x in s["r"]["ops"]:
                    if x["k"] in ("copy", "move") and not x["p"][1] and "lib" in own.ty(n.frame.body.types, n.frame.body.locals[x["p"][0]]["ty"]):
                        return True
        return False
    new = a.events(r"libloading::.*Library::(new|open)$")
    reg = [n for n, p in a.events(r"(::push|::insert|::push_back|::extend)$") if "obj" in targs(n) and "lib" not in targs(n)]
    ok_exits = {e.id for e in a.exits("Ok")} or {e.id for e in a.exits()}
    rep.check(bool(new), "anchor", "opens", loc(b), "the library is opened here")
    for n, p in new:
        t = a.result(n)
        for r in reg:
            first = a.path_to([m for m, l in n.succ], lambda x: x is r, stop_node=keeps)
            rest = a.path_to([m for m, l in r.succ], lambda x: x.id in ok_exits, stop_node=keeps) if first else None
            rep.check(rest is None, "kept-with-its-plugin", b.path, a.where(r), "where the plugin is registered its library has been stored with an owner", a.path_lines((first or []) + (rest or [])))
        if not reg:
            path = a.path_to([m for m, l in n.succ], lambda x: x.id in ok_exits, stop_node=keeps)
            rep.check(path is None, "kept-with-its-plugin", b.path, a.where(n), "where loading succeeds the library has been stored with an owner", a.path_lines(path))
