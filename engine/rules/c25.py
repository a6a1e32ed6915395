"""Interpretation of the development server from `serve` on to the start of the HTTP server, on several forms of the output
directory, and of every request handler registered there, on requests of every shape. The address given to the server must
be a loopback address; every file that a handler opens must be the one that the path lookup returned; the lookup must be
given the directory that the build in the same server writes; no function reachable from a handler (call graph, closures
included) writes to the file system, starts a process or builds; and no outcome of a lookup or of reading a file leads to a
panic."""
import posixpath
from .common import *
from .c24 import SERVE, BASE, Serve, STREAMS
from commands import Steps, S
from effects import FS_MUT, PROC
from world import LEN, UNK_CH, W, g, resolve, text, under
from graph import Graph

LOOPBACK = re.compile(r"^(127(\.\d{1,3}){3}|localhost|\[::1\])(:\d+)?$")
PANICS = re.compile(r"^core::(panicking|option::(unwrap|expect)_failed|result::unwrap_failed|str::slice_error_fail|slice::index::\w*fail)|^std::(rt::(begin_)?panic|panicking)|^core::cell::panic_|^alloc::vec::.*assert_failed")
FOUND = "/found"
FILES = [FOUND + "/a.html", FOUND + "/LICENSE", FOUND + "/.x", FOUND + "/caf\u00e9.html"]
URIS = ["/", "/a.html", "/a/", "//etc/passwd", "/../stuart.toml", "/%2e%2e/stuart.toml", "/a/../../x", "/caf\u00e9", "/%zz", "/a?b"]


class Started(Serve):
    """Up to the start of the server: what it listens on, its routes and its state."""

    def __init__(self, F, output):
        super().__init__(F, "site/stuart.toml", output, [], build=False)
        self.binds, self.routes, self.states, self.saved = set(), [], [], set()

    def step(self, env, *ev, outcomes=None):
        r = super().step(env, *ev, outcomes=outcomes)
        if ev[0] not in ("read",):
            self.saved |= {x for x in ev[1:] if isinstance(x, str) and x.startswith("/")} if re.search("save|output", ev[0]) else set()
        return r

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        if path.startswith("humphrey::app::"):
            if m == "run" and len(T) > 1:
                self.binds.add((T[1], frame.body.path))
            for i, a in enumerate(A):
                for x in (v[i],):
                    w, pl = resolve(env, x)
                    if w and w[0] in ("clo", "fn"):
                        self.routes.append((T[1] if len(T) > 1 else None, w))
            for i, o in enumerate(t["args"]):
                ty = frame.body.types[frame.body.operand_ty(o)] if hasattr(frame.body, "operand_ty") else None
                if m in ("new_with_config", "with_state", "new") and any(k and isinstance(x, tuple) and x[0] == "c" and isinstance(x[1], str) for k, x in A[i].items()):
                    sub = {k: x for k, x in A[i].items() if x[0] == "c"}
                    if sub not in self.states:
                        self.states.append(sub)
        if path == "std::net::TcpListener::bind" or path.startswith("std::net::") and m == "bind":
            self.binds.add((T[0], frame.body.path))
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)


class Handle(Steps):
    """One request."""

    def __init__(self, F, uri, state, found):
        super().__init__(F)
        self.uri, self.state, self.found = uri, state, found
        self.lookups, self.opened = set(), {}

    def start(self, G, env):
        env.update(self.statics)
        env[(W, ("trace",))] = ("c", ())
        b = G.root_body
        for i in range(1, b.argc + 1):
            ty = b.types[b.locals[i]["ty"]]["s"]
            if "Request" in ty:
                for r in ((0, i), ("P", i)):
                    env[(r, ("uri",))] = ("c", "s:" + self.uri)
            elif self.state and ("Arc<" in ty or "State" in ty):
                for r in ((0, i), ("P", i), ("STATE",)):
                    for k, x in self.state.items():
                        env[(r, k)] = x

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        if m in ("deref", "as_ref", "borrow") and "Arc" in path + targs and "Arc" in self.ty0(frame, t) and self.state:
            return [({(): ("&", (("STATE",), ()), False)}, {})]
        if path.endswith("::try_find_path"):
            self.lookups.add(T[0])
            gh = self.note(env, "lookup", T[0], "ok")
            return [({(): ("v", "None")}, gh), ({(): ("v", "Some"), ("Some.0",): ("v", "Directory")}, gh),
                    ({(): ("v", "Some"), ("Some.0",): ("v", "File"), ("Some.0", "File.0"): ("c", "s:" + self.found)}, gh)]
        if re.match(r"std::fs::(File::open|read|read_to_string|metadata|symlink_metadata|canonicalize|read_link|read_dir|exists)$|std::fs::OpenOptions::open$", path):
            p = T[-1] if m == "open" else T[0]
            self.opened.setdefault(p, (n, m))
            return [({(): ("v", "Ok"), ("Ok.0", "file"): ("c", 1)}, self.note(env, m, p, "ok")), ({(): ("v", "Err")}, self.note(env, m, p, "failed"))]
        if path.startswith("std::path::Path::") and m in ("extension", "file_name", "file_stem", "parent") and T and T[0] is not None:
            name = T[0].rsplit("/", 1)[-1]
            stem, dot, ext = name.rpartition(".")
            x = (ext if dot and stem else None) if m == "extension" else (stem if dot and stem else name) if m == "file_stem" else name if m == "file_name" else posixpath.dirname(T[0])
            return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + x)} if x is not None else {(): ("v", "None")}, {})]
        if m in ("min", "max") and len(v) == 2 and all(y and y[0] == "c" and isinstance(y[1], int) for y in v):
            return [({(): ("c", (min if m == "min" else max)(v[0][1], v[1][1]))}, {})]
        if m in ("to_string_lossy",) and T[0] is not None:
            return [(S(T[0]), {})]
        if path.startswith("std::path::") and m in ("canonicalize", "metadata", "read_dir", "exists", "is_file", "is_dir", "read_link"):
            self.opened.setdefault(T[0], (n, m))
            if m in ("exists", "is_file", "is_dir"):
                return [({(): ("c", b)}, {}) for b in (True, False)]
            return [({(): ("v", "Ok"), **({("Ok.0",): ("c", "s:" + T[0])} if m == "canonicalize" and T[0] is not None else {})}, {}), ({(): ("v", "Err")}, {})]
        if m in ("lock", "read", "write") and path.startswith("std::sync::"):
            return [({(): ("v", "Ok")}, {})]
        if m == "index" and T and T[0] is not None and UNK_CH not in T[0] and re.search("String|str", path + targs + self.ty0(frame, t)):
            x = self.slice(env, A, v, T[0], targs + self.tya(frame, t["args"][1]))
            if x is not None:
                if x is False:
                    self.panics.append((n, "`%s` cannot be sliced so" % T[0], self.trace(env)))
                    return []
                return [(S(x), {})]
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if r is None and m in ("position", "rposition", "find", "rfind", "last", "first") and d.startswith("std::option::Option<") and not self.guarded(frame.body):
            return [({(): ("v", "Some")}, {}), ({(): ("v", "None")}, {})]
        if r is None and d.startswith("std::result::Result<") and not re.search(r"core::result::|core::option::|core::fmt|std::fmt|Try|FromResidual|::lock$", path):
            b = self.F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
            if b is None or b.krate not in ("stuart", "stuart_core"):
                lost = {}
                for x in v:
                    w, pl = resolve(env, x)
                    if x and x[0] == "&" and len(x) > 2 and x[2] and pl is not None:
                        lost.update({(pl[0], pl[1] + k): None for k in dict(under(env, pl))})
                return [({(): ("v", "Ok")}, {**lost, **self.note(env, m, T[0] if T else None, "ok")}), ({(): ("v", "Err")}, {**lost, **self.note(env, m, T[0] if T else None, "failed")})]
        return r

    def guarded(self, b):
        """Whether the function asks beforehand if something is there."""
        return any(bl["t"]["k"] == "call" and bl["t"]["f"]["k"] == "const" and re.search(r"::(any|all|contains|count|is_some|is_none)$", (bl["t"]["f"].get("fn") or {}).get("path", "")) for bl in b.blocks)

    def note(self, env, *e):
        return {(W, ("trace",)): ("c", self.trace(env) + (e,))}

    def ty0(self, frame, t):
        return self.tya(frame, t["args"][0]) if t["args"] else ""

    def tya(self, frame, o):
        if o["k"] == "const":
            return str(o.get("ty", ""))
        return frame.body.types[frame.body.locals[o["p"][0]]["ty"]]["s"]

    def slice(self, env, A, v, s, ty):
        """The slice of a text; False if it panics; None if it is not known."""
        def num(f):
            x = A[1].get((f,))
            return x[1] if x and x[0] == "c" and isinstance(x[1], int) else None
        b = s.encode()
        if "RangeFull" in ty:
            return s
        lo = 0 if "RangeTo<" in ty or "RangeToInclusive" in ty else num("start")
        hi = len(b) if "RangeFrom<" in ty else num("end")
        if lo is None or hi is None or "Inclusive" in ty:
            return None
        try:
            return b[lo:hi].decode() if 0 <= lo <= hi <= len(b) and b[:lo].decode() is not None else False
        except UnicodeDecodeError:
            return False

    def free(self, G, n, v, pl, env):
        return True


def handle(F, rep, b, uri, state, found):
    w = Handle(F, uri, state, found)
    w.panics = []
    try:
        G = Graph(F, b, world=w, widen=3000, max_nodes=30000, inline=lambda x, f=None: x.krate == "stuart")
    except TooBig:
        return None, None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart"})
    return w, G


def certain(G):
    """Where panics start that follow from a value that is known: the last choice before them was none."""
    out = set()
    for n in G.nodes:
        if not (n.call and PANICS.match(n.call[0] or "")):
            continue
        todo, seen, sure, at = [n], {n.id}, False, None
        while todo and not sure:
            x = todo.pop()
            for p, lab in x.pred:
                if lab and lab[0] == "const":
                    sure = True
                    y, hop = x, {x.id}
                    while y.body.krate != "stuart" and y.pred:
                        z = next((q for q, _ in y.pred if q.id not in hop), None)
                        if z is None:
                            break
                        hop.add(z.id)
                        y = z
                    at = y.loc()
                elif p.id not in seen and not (lab and lab[0] in ("val", "variant", "notvariants")):
                    seen.add(p.id)
                    todo.append(p)
        if sure:
            out.add(at)
    return sorted(out)


def run(F, rep, tier):
    b = F.get(SERVE)
    if b is None:
        rep.ok("anchor", "stuart/src/serve/mod.rs", "the development server was not found; not decided")
        return
    handlers, states = {}, []
    for output in ("out", "./out/", "../o", "/elsewhere/out"):
        w = Started(F, output)
        from .c24 import interpret
        if interpret(F, rep, w) is None:
            rep.ok("loopback", loc(b), "too many paths; not decided")
            continue
        for x, f in w.binds:
            at = loc(F.get(f) or b)
            if x is None or UNK_CH in x:
                rep.ok("loopback", at, "the address is not determined; not decided")
            else:
                rep.check(bool(LOOPBACK.match(x)), "loopback", x, at, "the server listens on `%s`, which is a loopback address" % x)
        if not w.binds:
            rep.ok("loopback", loc(b), "the start of the server was not recognised; not decided")
        for r, h in w.routes:
            x = F.bodies.get(h[1] if h[0] == "clo" else h[1].j.get("resid") or h[1].j["id"])
            if x is not None:
                handlers[x.id] = x
        want = {norm(x) for x in w.saved}
        for s in w.states:
            if s not in states:
                states.append((s, want))
    for x in handlers.values():
        effects(F, rep, x)
        requests(F, rep, x, states)


def norm(p):
    return posixpath.normpath(p)


def effects(F, rep, x):
    cg = CallGraph(F)
    todo, seen = [x.id], {x.id}
    while todo:
        i = todo.pop()
        b = F.bodies[i]
        rep.saw(b.path)
        for path, span, called, fn in cg.ext.get(i, ()):
            bad = "writes to the file system" if FS_MUT.search(path) else "starts a process" if PROC.search(path) else None
            if FS_MUT.search(path) or PROC.search(path):
                rep.bad("no-effects", "%s/%s" % (last(x.path), path), loc(b), "a request to %s %s: %s" % (last(x.path), bad, path))
        for c, span in cg.succ.get(i, ()):
            if c.id not in seen:
                seen.add(c.id)
                todo.append(c.id)
    build = [F.bodies[i].path for i in seen if F.bodies[i].path in (BUILD, INIT) or F.bodies[i].krate == "stuart_core" and re.search(r"::(build|save\w*|process)$", F.bodies[i].path)]
    rep.check(not build, "no-effects", last(x.path) + "/build", loc(x), "a request to %s builds nothing" % last(x.path))
    rep.ok("no-effects", loc(x), "%d functions reachable from %s" % (len(seen), last(x.path)))


def outside_lookup(t):
    """The parts of a term that are not what the path lookup returned."""
    yield t
    if t[0] == "call" and t[1].endswith("::try_find_path"):
        return
    for y in t:
        for z in (y if isinstance(y, frozenset) else y if isinstance(y, tuple) and y and not isinstance(y[0], str) else (y,)):
            if isinstance(z, tuple) and z and isinstance(z[0], str):
                yield from outside_lookup(z)
            elif isinstance(z, tuple):
                for q in z:
                    if isinstance(q, tuple) and q and isinstance(q[0], str):
                        yield from outside_lookup(q)


OPENS = r"std::fs::(File::open|read|read_to_string|metadata|symlink_metadata|canonicalize|read_link|read_dir|exists)$|std::fs::OpenOptions::open$|std::path::Path::(canonicalize|metadata|read_dir|read_link|exists|is_file|is_dir)$"


def provenance(F, rep, x):
    try:
        a = An(F, x, inline=lambda y, f=None: y.krate == "stuart")
    except TooBig:
        return
    reqs = {i for i in range(1, x.argc + 1) if "Request" in x.types[x.locals[i]["ty"]]["s"]}
    for n, p in a.events(OPENS):
        t = a.arg(n, 1 if last(p) == "open" and "OpenOptions" in p else 0)
        bad = any(y[0] == "param" and y[1] in reqs for y in outside_lookup(t))
        rep.check(not bad, "confined", "%s/%s/request" % (last(x.path), last(p)), loc(x), "the path that %s is given is not made of the request itself, but found by the lookup" % last(p), a.path_lines(a.path_to(n)) if bad and False else None)


def requests(F, rep, x, states):
    at = loc(x)
    provenance(F, rep, x)
    for state, want in states:
        for uri in URIS:
            for found in FILES if (state, want) == states[0] else FILES[:1]:
                w, G = handle(F, rep, x, uri, state, found)
                if w is None:
                    rep.ok("requests", at, "too many paths; not decided")
                    return
                for p in w.lookups:
                    if p is None or UNK_CH in p:
                        rep.ok("same-directory", at, "the directory of the lookup is not determined; not decided")
                    elif want:
                        rep.check(norm(p) in want, "same-directory", last(x.path), at, "the lookup for a request is in the directory that the build writes" + ("" if norm(p) in want else ": in `%s`, not `%s`" % (p, ", ".join(sorted(want)))))
                for p, (n, m) in w.opened.items():
                    if p is None or UNK_CH in p and FOUND not in p and not p.startswith("/"):
                        rep.ok("confined", n.where() if hasattr(n, "where") else at, "the path that %s is given is not determined; not decided" % m)
                    else:
                        rep.check(p == w.found, "confined", "%s/%s" % (last(x.path), m), at, "the file that is read is the one that the lookup found" + ("" if p == w.found else ": `%s` for a request to `%s`" % (p, uri)))
                for y in certain(G):
                    rep.bad("no-panic", "%s/panic" % last(x.path), at, "a request to `%s` (file found: %s) can end in a panic at %s" % (uri, found, y))
                for n, why, tr in w.panics:
                    rep.bad("no-panic", "%s/slice" % last(x.path), at, "a request to `%s` can end in a panic at %s: %s" % (uri, n.loc(), why))
                rep.ok("no-panic", at, "%d states of a request to `%s`" % (len(G.nodes), uri))
