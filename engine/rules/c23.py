"""Order, history and sources of nondeterminism. Every function that lists a directory is interpreted on directories with
the same entries listed in different orders (entries of every kind, with names that differ only in case, length, extension or
prefix; sorting is interpreted with the comparison the code passes): what it returns and does must not depend on that order.
Iterations over hash maps and sets, in the functions that projects are loaded and built with, must end in something without an
order or be sorted before they are used. By call graph and flow of values, neither the clock, random numbers, process or
thread identities nor the times and numbers of files reach a file, an environment variable, a command, or the core library.
Building must not change the process's environment; the builder reads only fields that it has assigned before in the same
build; every trace of a later build is one of a first build; and an output directory that exists is removed before it is filled again."""
import itertools
from .common import *
from ana import CallGraph
from commands import Steps, enters, join
from frames import S
from graph import Graph, TooBig, under
from world import LEN, UNK_CH, W, g, resolve, text
from effects import CLOCK, RANDOM, FS_MUT, PROC

CORE, CLI = "stuart_core", "stuart"
NAMES = [("b.html", "file"), ("a.html", "file"), ("A.html", "file"), ("a.md", "file"), ("ab", "file"), ("10", "file"), ("9", "file"), ("Cargo.toml", "file"), ("zoo", "dir"), ("car", "dir"), ("Car", "dir")]


class Listing(Steps):
    """The world of a function that lists a directory."""
    STEP = re.compile(r"^$.")

    def __init__(self, F, b, names):
        d = "/d"
        first = next((i for i in range(1, b.argc + 1) if re.search(r"Path|OsStr|String|str\b", b.types[b.locals[i]["ty"]]["s"])), 1)
        super().__init__(F, {first: d}, {d: [n for n, _ in names]})
        self.rootid, self.rootpath = b.id, b.path
        self.kinds = {d + "/" + n: k for n, k in names}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        if path.startswith("std::fs::DirEntry::") or path in ("std::fs::metadata", "std::fs::symlink_metadata", "std::path::Path::metadata", "std::path::Path::symlink_metadata"):
            e = T[0]
            if path.startswith("std::fs::DirEntry::"):
                w, pl = resolve(env, v[0])
                e = text(env, ("&", (pl[0], pl[1] + ("entry",)), False)) if pl is not None else text(env, A[0].get(("entry",)))
            if m in ("metadata", "symlink_metadata", "file_type") and e in self.kinds:
                return [({(): ("v", "Ok"), ("Ok.0", "kind"): ("c", "s:" + self.kinds[e])}, {})]
        if re.match(r"std::fs::(Metadata|FileType)::", path):
            w, pl = resolve(env, v[0])
            k = env.get((pl[0], pl[1] + ("kind",))) if pl is not None else A[0].get(("kind",))
            if k is not None:
                if m == "file_type":
                    return [({("kind",): k}, {})]
                if m in ("is_file", "is_dir", "is_symlink"):
                    return [({(): ("c", k[1][2:] == m[3:])}, {})]
        if m in ("is_file", "is_dir") and T and T[0] in self.kinds:
            return [({(): ("c", self.kinds[T[0]] == m[3:])}, {})]
        if path in ("std::fs::read", "std::fs::read_to_string"):
            return [({(): ("v", "Ok")}, {})]
        fn = (t["f"].get("fn") or {}) if t["f"]["k"] == "const" else {}
        b = self.F.bodies.get(fn.get("resid") or fn.get("id") or "")
        if b is not None and b.krate in (CORE, CLI) and b.id != self.rootid and not any(x is not None and x in self.kinds for x in T):
            b = None
        if b is not None and (b.id == self.rootid or b.krate in (CORE, CLI) and b.argc):
            r = self.found(b, T)
            if r is not None:
                return r
        if m in ("cmp", "partial_cmp") and len(A) == 2:
            a, z = self.keyof(A[0], env), self.keyof(A[1], env)
            if a is not None and z is not None:
                try:
                    o = ("v", "Less" if a < z else "Greater" if z < a else "Equal")
                    return [({(): o} if m == "cmp" else {(): ("v", "Some"), ("Some.0",): o}, {})]
                except TypeError:
                    return None
        if "cmp::Ordering::" in path and v[0] and v[0][0] == "v":
            if m == "reverse":
                return [({(): ("v", {"Less": "Greater", "Greater": "Less"}.get(v[0][1], "Equal"))}, {})]
            if m in ("then", "then_with"):
                if v[0][1] != "Equal":
                    return [(A[0], {})]
                rs = [(A[1], env)] if m == "then" else self.apply(G, n, env, A[1], [])
                return None if rs is None else [(r, {}) for r, _ in rs]
        if m in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "len") and len(v) == 1 and T[0] is not None and UNK_CH not in T[0]:
            return [({(): ("c", len(T[0]))} if m == "len" else S(T[0].lower() if "lower" in m else T[0].upper()), {})]
        r = self.sorting(G, n, path, m, A, v, env)
        if r is not None:
            return r
        if m == "flatten" and len(A) == 1:
            its = self.sequence(env, A)
            if its is not None and all(x.get((), ("?",))[0] == "v" and x[()][1] in ("Ok", "Some") for x in its):
                return [(self.iterate([{k[1:]: w for k, w in x.items() if k[:1] in (("Ok.0",), ("Some.0",))} for x in its]), {})]
        if path.startswith("std::fs::read_dir") and T[0] in self.listed:
            return [x for x in super().model(G, n, path, m, trait, targs, A, v, frame, t, env) if x[0].get(()) == ("v", "Ok")]
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def found(self, b, T):
        """What reading one of the entries results in: something that carries its name."""
        e = next((x for x in T if x in self.kinds), None)
        d = b.types[b.locals[0]["ty"]]["s"]
        k = re.match(r"(?:\w+::)*(Result|Option)<(.*)", d)
        if e is None or not k:
            return None
        some = "Ok" if k.group(1) == "Result" else "Some"
        name = e.rsplit("/", 1)[-1]
        if re.match(r"(?:\w+::)*Node\b", k.group(2)):
            var = "Directory" if self.kinds[e] == "dir" else "File"
            sub = {(): ("v", var), (var + ".name",): ("c", "s:" + name), (var + ".source",): ("c", "s:" + e)}
        elif re.match(r"(?:\w+::)*(PathBuf|String)\b", k.group(2)):
            sub = {(): ("c", "s:" + e + "/found")} if b.id == self.rootid else {(): ("c", "s:" + UNK_CH)}
            if b.id != self.rootid:
                return None
        else:
            return None
        return [({(): ("v", some), **{(some + ".0",) + q: w for q, w in sub.items()}}, {})]

    def sequence(self, env, A):
        pl, it = self.iterating(env, A)
        if it is not None:
            return self.rest(it)
        pl, sub = self.listing(env, A)
        return self.items(sub) if sub is not None else None

    def sorting(self, G, n, path, m, A, v, env):
        """Sorting known items with the comparison that is passed."""
        if m in ("min_by_key", "max_by_key", "min_by", "max_by", "min", "max") and path.startswith("core::iter"):
            pl, it = self.iterating(env, A)
            if it is None:
                return None
            its = self.rest(it)
            out = self.sort(G, n, "sort_by_key" if m.endswith("key") else "sort_by" if m.endswith("by") else "sort", its, A[1] if len(A) > 1 else None, env)
            if out is None:
                return None
            x = (out[0] if m.startswith("min") else out[-1]) if out else None
            return [({(): ("v", "None")} if x is None else {(): ("v", "Some"), **{("Some.0",) + k: w for k, w in x.items()}}, {})]
        if m in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "reverse"):
            pl, sub = self.listing(env, A)
            if sub is None or pl is None:
                return None
            its = self.items(sub)
            if m == "reverse":
                return [({}, self.put(env, pl, self.made(its[::-1])))]
            out = self.sort(G, n, m, its, A[1] if len(A) > 1 else None, env)
            return None if out is None else [({}, self.put(env, pl, self.made(out)))]
        return None

    def ref(self, n, e, i, x):
        root = ("I", getattr(self, "nesting", 0), n.loc(), "sort", i)
        for k, w in x.items():
            e[(root, k)] = w
        return {(): ("&", (root, ()), False)}

    def keyof(self, r, env):
        """A Python key ordered as the value is, or None."""
        w, pl = resolve(env, r.get(()))
        if pl is not None:
            r, w = dict(under(env, pl)), env.get(pl)
        if w and w[0] == "c":
            if isinstance(w[1], str):
                return None if UNK_CH in w[1] else (0, w[1][2:].split("/") if w[1].startswith("s:/") else w[1][2:])
            return (1, w[1])
        if w and w[0] == "v" and w[1] in ("None", "Some"):
            if w[1] == "None":
                return (0,)
            k = self.keyof({q[1:]: x for q, x in r.items() if q[:1] == ("Some.0",)}, env)
            return None if k is None else (1, k)
        if ("0",) in r and ("1",) in r:
            l = [self.keyof({q[1:]: x for q, x in r.items() if q[:1] == (str(j),)}, env) for j in range(len({q[0] for q in r if q}))]
            return None if None in l else tuple(l)
        if w and w[0] == "&":
            return None
        return None

    def sort(self, G, n, m, its, clo, env):
        if clo is None:
            keys = [self.keyof(x, env) for x in its]
        elif m.endswith("key"):
            keys = []
            for i, x in enumerate(its):
                e = dict(env)
                rs = self.apply(G, n, e, clo, [self.ref(n, e, i, x)])
                if rs is None or len(rs) != 1:
                    return None
                keys.append(self.keyof(rs[0][0], rs[0][1]))
        else:
            out = []
            for i, x in enumerate(its):     # a stable insertion sort
                at = len(out)
                while at:
                    e = dict(env)
                    rs = self.apply(G, n, e, clo, [self.ref(n, e, 0, out[at - 1]), self.ref(n, e, 1, x)])
                    if rs is None or len(rs) != 1:
                        return None
                    w = rs[0][0].get(())
                    o = w[1] if w and w[0] == "v" else {-1: "Less", 0: "Equal", 1: "Greater", 255: "Less"}.get(w[1]) if w and w[0] == "c" else None
                    if o not in ("Less", "Equal", "Greater"):
                        return None
                    if o != "Greater":
                        break
                    at -= 1
                out.insert(at, x)
            return out
        if None in keys:
            return None
        try:
            return [x for _, x in sorted(zip(keys, its), key=lambda p: p[0])]
        except TypeError:
            return None


def result(w, env):
    """What a function has returned and done, as far as it is known."""
    out = []
    for (r, k), v in env.items():
        if r == (0, 0) and (v[0] == "v" or v[0] == "c"):
            out.append((k, v))
    return frozenset(out), w.trace(env)


def listings(F, rep, cg):
    readers = sorted({root_fn(F, b).id for b in F.local if b.krate in (CORE, CLI) for x in cg.ext.get(b.id, ()) if x[0] in ("std::fs::read_dir", "std::path::Path::read_dir")})
    n = 0
    for i in readers:
        b = F.bodies[i]
        consts = sorted({v[1][2:] for v in Steps(F).statics.values() if v[0] == "c" and isinstance(v[1], str) and re.match(r"s:on[A-Z]", v[1])})
        entries = NAMES + [(x, "file") for x in consts]
        if b.krate == CORE:
            entries = entries[:9 + 2]
        orders = [entries, entries[::-1], entries[len(entries) // 2:] + entries[:len(entries) // 2]]
        got = []
        for o in orders:
            w = Listing(F, b, o)
            try:
                G = Graph(F, b, world=w, widen=100000, max_nodes=60000, inline=lambda x, f: x.krate in (CORE, CLI))
            except TooBig:
                got = None
                break
            rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
            rep.saw(*{f.body.path for f in G.frames if f.body.krate in (CORE, CLI)})
            got.append({result(w, env) for kind, env, lost in w.ends if not lost})
            if DBG:
                print(b.path, len(w.ends), [x[2] for x in w.ends][:5], str([sorted(x[0], key=str) for x in got[-1]])[:1500])
        if not got or not all(got) or not any(len(r[0]) > 2 or any(v[0] == "c" for _, v in r[0]) for r in got[0]):
            if not plainly_sorted(F, cg, b):
                rep.bad("directory-order", b.path.rsplit("::", 1)[-1], loc(b), "the entries of a directory are used in the order in which the filesystem lists them: nothing sorts them")
            else:
                rep.ok("directory-order", loc(b), "%s: not determined; not decided" % b.path)
            continue
        n += 1
        rep.check(all(x == got[0] for x in got), "directory-order", b.path.rsplit("::", 1)[-1], loc(b),
                  "%s does not depend on the order in which the filesystem lists the entries of a directory%s" % (last(b.path), "" if all(x == got[0] for x in got) else ": " + differ(got)))
    rep.counts["listing functions"] = len(readers)
    rep.counts["listing functions decided"] = n


DBG = False


def differ(got):
    def show(s):
        for r in sorted(s, key=str):
            t = [str(v[1][2:]) for k, v in sorted(r[0], key=lambda p: [int(re.sub(r"\D", "", x) or 0) for x in p[0]]) if v[0] == "c" and isinstance(v[1], str) and v[1].startswith("s:")]
            if t:
                return ", ".join(x.rsplit("/", 1)[-1] if "found" not in x else x for x in t[:14])
        return "nothing"
    x, y = next((got[i], got[j]) for i, j in ((0, 1), (0, 2), (1, 2)) if got[i] != got[j])
    return "%s or %s" % (show(x - y), show(y - x))


def plainly_sorted(F, cg, b):
    """Whether anything that a function calls in the workspace sorts, or keeps an order of its own."""
    seen, todo = set(), [b.id]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for x in cg.ext.get(i, ()):
            if re.search(r"::(sort\w*|sorted\w*|min\w*|max\w*)$|BTree", x[0]):
                return True
        todo += [c.id for c, _ in cg.succ.get(i, ()) if c.krate in (CORE, CLI)]
    return False


HASH = re.compile(r"Hash(Map|Set)\b")
ITER = ("iter", "into_iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "extract_if", "difference", "union", "intersection", "symmetric_difference")
LAZY = ("map", "filter", "filter_map", "cloned", "copied", "into_iter", "iter", "by_ref", "inspect", "flat_map", "flatten", "chain", "enumerate", "zip", "rev", "skip", "take", "peekable", "take_while", "skip_while", "map_while", "deref", "as_ref", "as_slice", "as_deref", "borrow")
FIRST = ("next", "nth", "find", "find_map", "position", "last", "reduce", "fold", "try_fold", "for_each", "try_for_each", "max_by_key", "min_by_key", "max_by", "min_by")
FREE = ("count", "any", "all", "sum", "product", "min", "max", "len", "contains", "is_empty", "contains_key", "size_hint")


def opl(o):
    return o["p"][0] if o["k"] != "const" else None


def fields(pr):
    return [x[2] for x in pr if isinstance(x, list) and len(x) > 2 and x[0] == "f"]


def ty(b, l):
    return b.types[b.locals[l]["ty"]]["s"]


def flows(b, starts):
    """The locals of a body that (a part or a reference of) the value of one of the given locals may be in, by copies and lazy adapters; and the calls that use them."""
    have, calls = set(starts), []
    grew = True
    while grew:
        grew = False
        for bl in b.blocks:
            for s in bl["st"]:
                if s["k"] != "assign":
                    continue
                r = s["r"]
                src = [r["p"][0]] if r["k"] in ("ref", "rawptr", "copyref") and "p" in r else [opl(o) for o in [r.get("o")] + list(r.get("ops") or ()) if isinstance(o, dict)]
                if any(x in have for x in src if x is not None) and s["p"][0] not in have:
                    have.add(s["p"][0])
                    grew = True
            t = bl["t"]
            if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn") and t["args"]:
                m = last(t["f"]["fn"]["path"])
                if m in LAZY and opl(t["args"][0]) in have and t["dest"][0] not in have:
                    have.add(t["dest"][0])
                    grew = True
    for j, bl in enumerate(b.blocks):
        t = bl["t"]
        if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn"):
            for i, o in enumerate(t["args"]):
                if opl(o) in have:
                    calls.append((j, t, i))
    return have, calls


ORDERED = re.compile(r"\b(Vec|VecDeque|String|Box<\[|LinkedList|PathBuf|OsString)\b")


def hashes(F, rep, cg, reach):
    n = 0
    for b in sorted(reach, key=lambda b: b.id):
        if re.search(r" as (core::clone|core::fmt|serde)", b.path):
            continue
        for j, bl in enumerate(b.blocks):
            t = bl["t"]
            if t["k"] != "call" or t["f"]["k"] != "const" or not t["f"].get("fn") or not t["args"] or t["dest"][1]:
                continue
            m = last(t["f"]["fn"]["path"])
            l = opl(t["args"][0])
            if m not in ITER or l is None or not re.match(r"&?(mut )?(std::collections::|hashbrown::|ahash::)?(\w+::)*Hash(Map|Set)<", ty(b, l).replace("&mut ", "&").replace("&'_ ", "&")):
                continue
            n += 1
            at = loc(b)
            key = "%s/%s" % (last(root_fn(F, b).path), m)
            have, calls = flows(b, [t["dest"][0]])
            verdicts = [use(F, cg, b, j2, t2, i2) for j2, t2, i2 in calls if last(t2["f"]["fn"]["path"]) not in LAZY]
            bad = [x for x in verdicts if x]
            if bad:
                rep.bad("hash-order", key, at, "%s: the order of a hash map or set decides %s" % (b.path, bad[0]))
            else:
                rep.ok("hash-order", at, "%s: the iteration of a hash map or set ends in something without its order" % b.path)
    rep.counts["hash iterations"] = n
    rep.ok("hash-order", "stuart", "%d iterations over hash maps or sets in %d functions" % (n, len(reach)))


def use(F, cg, b, j, t, i):
    """What the order of an iteration decides at a call, or None."""
    m = last(t["f"]["fn"]["path"])
    d = ty(b, t["dest"][0]) if not t["dest"][1] else ""
    if i or m in FREE:
        if i and m in ("extend", "from_iter", "extend_from_slice") and ORDERED.search(ty(b, opl(t["args"][0])) if opl(t["args"][0]) is not None else d):
            return listed(F, cg, b, opl(t["args"][0]), j)
        return None
    if m in ("collect", "from_iter", "try_collect", "sum_string", "join", "concat"):
        if not ORDERED.search(re.sub(r"<.*", "", re.sub(r"^(?:\w+::)*(Result|Option)<(.*)", r"\2", d))):
            return None
        return listed(F, cg, b, t["dest"][0], j)
    if m == "next":
        return loop(F, cg, b, j, t)
    if m in ("find", "find_map", "nth", "last", "reduce", "position"):
        return "which of its entries is used"
    return None


LISTY = re.compile(r"^((\w+::)*(Result|Option)<)?((\w+::)*(Vec|VecDeque|Box<\[|String|PathBuf|IntoIter|LinkedList)|impl |Box<dyn |&)|^\(")
USED = ("into_iter", "iter", "iter_mut", "next", "join", "concat", "first", "last", "index", "get", "pop", "drain", "to_vec", "split_first", "windows", "chunks")


def listed(F, cg, b, l, j, depth=0):
    """What the order of a list filled in an unspecified order decides, if it is not sorted before it is used."""
    have, calls = flows(b, [l])
    # places that the list passes through on its way (`?`)
    for _ in range(3):
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn") and t["args"] and opl(t["args"][0]) in have and last(t["f"]["fn"]["path"]) in ("branch", "unwrap", "expect", "unwrap_or_default", "deref_mut", "as_mut_slice", "as_mut", "index_mut"):
                have.add(t["dest"][0])
        have, calls = flows(b, have)
    sorts = {k for k, t, i in calls if i == 0 and last(t["f"]["fn"]["path"]).startswith(("sort", "select_nth"))}
    # given to other functions of the workspace as something that can be changed, it may be sorted there
    for k, t, i in calls:
        if t["f"]["fn"].get("krate") in (CORE, CLI) and ty(b, opl(t["args"][i])).startswith("&mut"):
            sorts.add(k)
    uses = {k: last(t["f"]["fn"]["path"]) for k, t, i in calls if i == 0 and last(t["f"]["fn"]["path"]) in USED}
    for bl_k, bl in enumerate(b.blocks):
        t = bl["t"]
        if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn") and t["args"] and opl(t["args"][0]) in have and last(t["f"]["fn"]["path"]) in USED:
            uses[bl_k] = last(t["f"]["fn"]["path"])
    seen, todo = set(), [j]
    while todo:
        k = todo.pop()
        if k in seen or k in sorts:
            continue
        seen.add(k)
        todo += succs(b.blocks[k])
    hit = [uses[k] for k in sorted(seen) if k in uses and k != j]
    if hit:
        return "the order of a list that is not sorted before it is used"
    returned = 0 in have and any(b.blocks[k]["t"]["k"] == "return" for k in seen)
    if returned and not LISTY.search(ty(b, 0)):
        return "the order of a list that is a part of what is returned"
    if any(s["k"] == "assign" and s["p"][0] in range(1, b.argc + 1) and fields(s["p"][1]) and s["r"]["k"] == "use" and opl(s["r"]["o"]) in have for k in seen for s in b.blocks[k]["st"]):
        return "the order of a list that is kept"
    if 0 in have and any(b.blocks[k]["t"]["k"] == "return" for k in seen) and depth < 2 and b.kind != "closure":
        for c in F.local:
            for k, bl in enumerate(c.blocks):
                t = bl["t"]
                if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn") and not t["dest"][1] and (t["f"]["fn"].get("resid") or t["f"]["fn"]["id"]) == b.id:
                    r = listed(F, cg, c, t["dest"][0], k, depth + 1)
                    if r:
                        return r
    return None


def loop(F, cg, b, j, t):
    """What the body of a loop over the entries does in their order."""
    # blocks from which the call is reached again
    succ = {k: b.succs(k) if hasattr(b, "succs") else succs(bl) for k, bl in enumerate(b.blocks)}

    def reach(k0, stop=None):
        seen, todo = set(), list(succ[k0])
        while todo:
            k = todo.pop()
            if k in seen or k == stop:
                continue
            seen.add(k)
            todo += succ[k]
        return seen
    after = reach(j)
    body = {k for k in after if j in reach(k) or k == j}
    for k in sorted(body):
        c = b.blocks[k]["t"]
        if c["k"] != "call" or c["f"]["k"] != "const" or not c["f"].get("fn") or k == j:
            continue
        fn = c["f"]["fn"]
        m = last(fn["path"])
        if m in ("push", "push_str", "push_back", "extend", "extend_from_slice", "write_str", "write_fmt", "write_all", "append") and c["args"] and opl(c["args"][0]) is not None and ORDERED.search(ty(b, opl(c["args"][0]))):
            l = opl(c["args"][0])
            # the list itself: what the reference was taken of
            src = {s["r"]["p"][0] for bl in b.blocks for s in bl["st"] if s["k"] == "assign" and s["p"] == [l, []] and s["r"]["k"] == "ref"}
            if all(listed(F, cg, b, x, k) for x in src) and src:
                return "the order in which `%s` is called" % m
            continue
        if FS_MUT.search(fn["path"]) or PROC.search(fn["path"]):
            return "the order of effects (`%s`)" % m
        if fn.get("krate") in (CORE, CLI) and any(opl(o) is not None and ty(b, opl(o)).startswith("&mut") for o in c["args"]):
            return "the order in which `%s` is called" % m
    return None


def succs(bl):
    t = bl["t"]
    out = [t[k] for k in ("t", "otherwise") if isinstance(t.get(k), int)]
    out += [x[1] for x in t.get("targets") or ()]
    if isinstance(t.get("target"), int):
        out.append(t["target"])
    return out


STAMP = re.compile(r"std::fs::Metadata::(modified|accessed|created)$|MetadataExt::(ino|mtime\w*|atime\w*|ctime\w*|dev)$|std::process::id$|std::thread::(Thread::id|current|ThreadId)|std::hash::random::|RandomState|std::env::temp_dir$")
HARMLESS = re.compile(r"std::thread::current$")


def source(p):
    return bool((CLOCK.search(p) or RANDOM.search(p) or STAMP.search(p)) and not HARMLESS.search(p))


def clocks(F, rep, cg, reach):
    """Values of the clock and the like, followed through locals, parameters, results and fields."""
    ids = {b.id: b for b in reach}
    tl, tf, tr, why = set(), set(), set(), {}          # (body, local); (adt field name); returned by body
    n = 0
    for _ in range(12):
        size = (len(tl), len(tf), len(tr))
        for b in reach:
            def tainted(o):
                if o["k"] == "const":
                    return False
                l, pr = o["p"]
                return (b.id, l) in tl or any((owner(b, l), x) in tf for x in fields(pr))

            def taint(p):
                l, pr = p
                if pr:
                    f = fields(pr)
                    if f:
                        tf.add((owner(b, l), f[-1]))
                        return
                tl.add((b.id, l))
            for bl in b.blocks:
                for s in bl["st"]:
                    if s["k"] != "assign":
                        continue
                    r = s["r"]
                    os_ = [o for o in [r.get("a"), r.get("b"), r.get("o")] + list(r.get("ops") or ()) if isinstance(o, dict)]
                    if r["k"] == "ref" and "p" in r:
                        os_ = [dict(k="copy", p=r["p"])]
                    if any(tainted(o) for o in os_):
                        taint(s["p"])
                t = bl["t"]
                if t["k"] == "call":
                    fn = t["f"].get("fn") if t["f"]["k"] == "const" else None
                    p = (fn or {}).get("path", "")
                    hot = [i for i, o in enumerate(t["args"]) if tainted(o)]
                    callee = F.bodies.get((fn or {}).get("resid") or (fn or {}).get("id") or "")
                    if source(p):
                        taint(t["dest"])
                    elif callee is not None and callee.id in ids:
                        for i in hot:
                            tl.add((callee.id, i + 1))
                        if callee.id in tr:
                            taint(t["dest"])
                    elif hot:
                        taint(t["dest"])
                        for o in t["args"]:
                            if opl(o) is not None and ty(b, opl(o)).startswith("&mut") and not re.search(r"Formatter|Stdout|Stderr|StandardStream|ProgressBar", ty(b, opl(o))):
                                tl.add((b.id, opl(o)))
                                back(b, opl(o), tl)
                if (b.id, 0) in tl:
                    tr.add(b.id)
        if size == (len(tl), len(tf), len(tr)):
            break
    for b in reach:
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] != "call" or t["f"]["k"] != "const" or not t["f"].get("fn"):
                continue
            fn = t["f"]["fn"]
            p = fn["path"]
            if source(p):
                n += 1
                if b.krate == CORE:
                    rep.bad("clock", "core/%s" % last(p), loc(b), "%s reads %s while a project is built" % (b.path, p))
            hot = [o for o in t["args"] if opl(o) is not None and ((b.id, opl(o)) in tl or any((owner(b, opl(o)), x) in tf for x in fields(o["p"][1])))]
            if not hot:
                continue
            core = fn.get("krate") == CORE
            if (FS_MUT.search(p) or re.search(r"std::process::Command::|std::env::set_var$|std::io::Write::write", p) or core) and not re.search(r"Stdout|Stderr|StandardStream", " ".join(ty(b, opl(o)) for o in t["args"] if opl(o) is not None)):
                rep.bad("clock", "%s/%s" % (last(root_fn(F, b).path), last(p)), loc(b), "%s: a value that comes from the clock, randomness or a file's times reaches `%s`" % (b.path, last(p)))
    rep.counts["clock and random reads"] = n
    rep.ok("clock", "stuart", "%d reads of the clock and the like; none reaches a file, a command, an environment variable or the core library" % n)


def back(b, l, tl):
    for bl in b.blocks:
        for s in bl["st"]:
            if s["k"] == "assign" and s["p"] == [l, []] and s["r"]["k"] == "ref":
                tl.add((b.id, s["r"]["p"][0]))


def owner(b, l):
    return re.sub(r"^[&*]*(mut |'\w+ )*", "", ty(b, l)).split("<")[0]


def reachable(F, cg, roots):
    seen, todo = {}, [F.get(p) for p in roots]
    todo = [b for b in todo if b is not None]
    while todo:
        b = todo.pop()
        if b.id in seen or b.krate not in (CORE, CLI):
            continue
        seen[b.id] = b
        todo += [c for c, _ in cg.succ.get(b.id, ())]
    return list(seen.values())


def environment(F, rep, cg, reach):
    for b in reach:
        for x in cg.ext.get(b.id, ()):
            if re.search(r"std::env::(set_var|remove_var|set_current_dir)$", x[0]):
                rep.bad("environment", "%s/%s" % (last(root_fn(F, b).path), last(x[0])), loc(b), "%s changes the process's %s, which the next build sees" % (b.path, "working directory" if "dir" in x[0] else "environment"))
    rep.ok("environment", "stuart", "no function that builds changes the process's environment")


# ---------------------------------------------------------------- what earlier builds leave

def stale_fields(F, rep, cg):
    """Fields of the builder that a build both writes and reads are written first."""
    b = F.get("stuart_core::Stuart::build")
    if b is None:
        return
    a = F.adts.get("stuart_core::Stuart")
    if a is None:
        return
    names = [f["name"] for f in a["variants"][0]["fields"]]

    def touched(i, seen=None):
        """The builder's fields that a function (and what it calls) reads, and those it assigns."""
        seen = set() if seen is None else seen
        if i in seen or i not in F.bodies or F.bodies[i].krate != CORE:
            return set(), set()
        seen.add(i)
        x = F.bodies[i]
        rd, wr = set(), set()
        for p, _, w in places(x):
            f = [y for y in fields(p[1]) if y in names]
            if f and re.search(r"(^|\W)Stuart$", owner(x, p[0])):
                (wr if w and fields(p[1])[-1:] == f[:1] else rd).add(f[0])
        for c, _ in cg.succ.get(i, ()):
            r, w = touched(c.id, seen)
            rd, wr = rd | r, wr | w
        return rd, wr
    steps = {}
    for k, bl in enumerate(b.blocks):
        st = []
        for p, _, w in places(b, k, call=False):
            f = [x for x in fields(p[1]) if x in names]
            if p[0] == 1 and f:
                st.append((w and fields(p[1])[-1:] == f[:1], f[0]))
        t = bl["t"]
        if t["k"] == "call":
            c = F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
            if c is not None and any(opl(o) is not None and re.search(r"(^|\W)Stuart$", owner(b, opl(o))) for o in t["args"]):
                r, w = touched(c.id)
                st += [(False, f) for f in sorted(r - w)] + [(True, f) for f in sorted(w)]
            f = [x for x in fields(t["dest"][1]) if x in names]
            if t["dest"][0] == 1 and f:
                st.append((True, f[0]))
        steps[k] = st
    writes = {f for st in steps.values() for w, f in st if w}
    done, todo, bad = {0: frozenset()}, [0], {}
    while todo:
        k = todo.pop()
        cur = set(done[k])
        for w, f in steps[k]:
            if w:
                cur.add(f)
            elif f in writes and f not in cur:
                bad.setdefault(f, k)
        for x in succs(b.blocks[k]):
            new = frozenset(cur) & done.get(x, frozenset(cur))
            if x not in done or new != done[x]:
                done[x] = new
                todo.append(x)
    rep.saw(b.path)
    for f in sorted(writes):
        rep.check(f not in bad, "earlier-builds", "Stuart.%s" % f, loc(b), "a build reads `%s` only after it has assigned it%s" % (f, "" if f not in bad else "; the value of an earlier build is read"))


def places(b, bb=None, call=True):
    """[(place, block, written)] of a body or block."""
    out = []
    for k, bl in enumerate(b.blocks):
        if bb is not None and k != bb:
            continue
        for s in bl["st"]:
            if s["k"] != "assign":
                continue
            r = s["r"]
            for o in [r.get("a"), r.get("b"), r.get("o")] + list(r.get("ops") or ()):
                if isinstance(o, dict) and o.get("k") != "const" and "p" in o:
                    out.append((o["p"], k, False))
            if "p" in r and isinstance(r["p"], list):
                out.append((r["p"], k, False))
            out.append((s["p"], k, True))
        t = bl["t"]
        if t["k"] == "call" and call:
            for o in t["args"]:
                if o.get("k") != "const":
                    out.append((o["p"], k, False))
            out.append((t["dest"], k, True))
        elif t["k"] == "switch" and t["d"].get("k") != "const":
            out.append((t["d"]["p"], k, False))
    return out


class Saving(Steps):
    """The world of saving an output over an older one."""
    STEP = re.compile(r"^$.")

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        if T and T[0] is not None and T[0].rstrip("/") == "/out":
            if m in ("exists", "is_dir", "try_exists", "is_file"):
                return [({(): ("c", m != "is_file")} if m != "try_exists" else {(): ("v", "Ok"), ("Ok.0",): ("c", True)}, {})]
            if path in ("std::fs::metadata", "std::fs::symlink_metadata") or m == "metadata":
                return [({(): ("v", "Ok"), ("Ok.0", "kind"): ("c", "s:dir")}, {})]
            if path in ("std::fs::remove_dir_all", "std::fs::rename"):
                return [({(): ("v", "Ok")}, {(W, ("clean",)): ("c", True)}), ({(): ("v", "Err")}, {})]
            if path in ("std::fs::create_dir", "std::fs::create_dir_all"):
                if g(env, "clean") or m == "create_dir_all":
                    return [({(): ("v", "Ok")}, {})]
                return [({(): ("v", "Err"), ("Err.0", "exists"): ("c", True)}, {})]
            if path == "std::fs::read_dir":
                self.lost(env)
        if path.startswith("std::fs::") and m in ("remove_file", "remove_dir", "remove_dir_all", "rename") and (T[0] is None or T[0].rstrip("/") != "/out"):
            self.lost(env)
        if re.match(r"std::fs::(Metadata|FileType)::", path):
            w, pl = resolve(env, v[0])
            k = env.get((pl[0], pl[1] + ("kind",))) if pl is not None else A[0].get(("kind",))
            if k is not None:
                return [({("kind",): k}, {})] if m == "file_type" else [({(): ("c", m == "is_dir")}, {})] if m.startswith("is_") else None
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)


def overwrites(F, rep):
    b = F.get("stuart_core::Stuart::save")
    if b is None or b.argc != 2:
        return
    from frames import node
    tree = node("content", "dir", [node("a.html", "Html")])
    sub = {("output",): ("v", "Some"), **{("output", "Some.0") + k: v for k, v in tree.items()}}
    w = Saving(F, {1: sub, 2: "/out"})
    try:
        G = Graph(F, b, world=w, widen=4000, max_nodes=40000, inline=lambda x, f: x.krate == CORE)
    except TooBig:
        return
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == CORE})
    ends = [(k, env) for k, env, lost in w.ends if not lost and k == "Ok"]
    if not ends:
        rep.ok("stale-output", loc(b), "saving over an older output is not determined; not decided")
    for k, env in ends:
        rep.check(bool(g(env, "clean")), "stale-output", "save", loc(b), "an output directory that exists is removed before it is filled again")


def later_builds(F, rep):
    from .c22 import loaded, traces, PROJECTS
    n = 0
    for manifest, output in PROJECTS[:2]:
        for sub, before in loaded(F, rep, manifest, output, "ENV", ["onPreBuild", "onPostBuild"])[:1]:
            for meta in (True, False):
                s = dict(sub)
                s[("stuart", "config", "save_metadata")] = ("c", meta)
                first = traces(F, rep, s)
                if not first:
                    continue
                had = {(k, t) for k, t, _ in first}
                seen = [s]
                for k, t, after in first:
                    if after in seen or len(seen) > 4:
                        continue
                    seen.append(after)
                    again = traces(F, rep, after)
                    for k2, t2, _ in again or ():
                        n += 1
                        if (k2, t2) not in had:
                            show = "; ".join("%s %s" % (last(str(e[0])), e[-1]) for e in t2)
                            rep.bad("earlier-builds", "trace", loc(F.get(BUILD)), "a build after another one takes steps that a first build cannot take: %s -> %s" % (show, k2))
                            break
                    gone = had - {(k2, t2) for k2, t2, _ in again or ()}
                    if again and gone:
                        k2, t2 = sorted(gone, key=str)[0]
                        rep.bad("earlier-builds", "missing", loc(F.get(BUILD)), "a build after another one cannot take the steps of a first build: %s -> %s" % ("; ".join("%s %s" % (last(str(e[0])), e[-1]) for e in t2), k2))
    rep.counts["later builds"] = n
    rep.ok("earlier-builds", "stuart/src/build.rs", "%d traces of later builds compared with those of first builds" % n)


def run(F, rep, tier):
    cg = CallGraph(F)
    listings(F, rep, cg)
    reach = reachable(F, cg, [BUILD, INIT, "stuart_core::Stuart::build", "stuart_core::Stuart::save", "stuart_core::Stuart::save_metadata", "stuart_core::Stuart::merge_output"])
    rep.saw(*{b.path for b in reach})
    hashes(F, rep, cg, list({b.id: b for b in reach + [b for b in F.local if b.krate == CORE]}.values()))
    clocks(F, rep, cg, reach)
    environment(F, rep, cg, reachable(F, cg, [BUILD]))
    stale_fields(F, rep, cg)
    overwrites(F, rep)
    later_builds(F, rep)
