"""Fate of every failure. Every function and closure of both crates that returns a result is interpreted on its own, with
every call in it that returns a result (of the standard library, of other crates, of the crates themselves, and of starting
a process) split into success and failure; functions that return an option or a flag are followed into their callers. On
every path on which a step failed the function must end with an error (so that, function by function, the failure reaches
the command), except for the tolerated steps: removing the temporary directory, creating a directory that exists, and the
Git queries. `main` must print the error of every command and exit with a non-zero status."""
import re
from .common import *
from commands import Steps, Scoped
from world import LEN, Lists, UNK_CH, W, g, resolve, text
from graph import Graph, op_place

# results that are not steps of a build: formatting, the terminal, locks and channels, the questions asked of paths and numbers
NOT_STEPS = re.compile(r"^(<?core::fmt|core::result::|core::option::|core::ops::|termcolor|std::sync|std::env::|str::parse|core::str::(<impl str>::)?parse|once_cell|core::num|serde|humphrey_ws)|"
                       r"::(canonicalize|strip_prefix|try_from|try_into|recv|try_recv|send_timeout|set_color|reset|write_fmt|write_str|lock|elapsed|duration_since|downcast|set)$")
RESULT = re.compile(r"^(core::result::|std::result::)?Result<")
OPTRESULT = re.compile(r"^(core::option::|std::option::)?Option<(core::result::|std::result::)?Result<")
ITER = re.compile(r"^core::(iter|slice)::|Iterator>?::")
CONVERT = re.compile(r"::from_utf8$")
ENTRY = UNK_CH + "/<entry>"
QUERY = {"ls-remote", "config", "init"}


def retty(b):
    return b.types[b.locals[0]["ty"]]["s"]


class Fate(Steps):
    def __init__(self, F, steps, searches, conversions, args=None, eager=True):
        super().__init__(F, args)
        self.can_fail, self.searches, self.conversions, self.eager = steps, searches, conversions, eager
        self.lazy, self.lossy = {}, {}

    def start(self, G, env):
        if self.given:
            return super().start(G, env)
        env.update(self.statics)
        if self.item:
            env[((0, self.item), ())] = ("v", "Err")
            env[(W, ("failed",))] = ("c", "an item")

    item = None
    main = server = False
    site = None
    alternative = False

    def step(self, env, *ev, outcomes=None):
        out = []
        what = re.sub(r"<.*?>", "", ev[0]).rsplit("::", 1)[-1] if ev[0] != "run" else "`%s`" % " ".join([str(ev[1])] + [str(x) for x in ev[2][:1]])
        if ev[0] in ("run", "spawn") and ev[1] == "git" and set(ev[2]) & QUERY:
            return [(sub, {}) for sub, _ in outcomes]
        for sub, mark in outcomes or (({(): ("v", "Ok")}, "ok"), ({(): ("v", "Err")}, "failed")):
            gh = {}
            if mark == "ok" and g(env, "failed") == what and g(env, "site") == self.site and self.alternative:
                gh = {(W, ("failed",)): None, (W, ("site",)): None}       # the next of several alternatives
            if mark in ("failed", "not started", "unsuccessful") and not g(env, "failed"):
                gh = {(W, ("failed",)): ("c", what), (W, ("site",)): ("c", self.site)}
            out.append((sub, gh))
        return out

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        self.site = (frame.body.id, n.bb)
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        T = [text(env, x) for x in v]
        if path == "std::io::Error::kind" or path.endswith("io::error::Error::kind"):
            # asked for the kind of the failure of an operation that tolerates it
            if g(env, "tolerant"):
                return [({(): ("v", g(env, "tolerant"))}, {(W, ("failed",)): None, (W, ("tolerant",)): None}), ({(): ("v", "PermissionDenied")}, {(W, ("tolerant",)): None})]
            return None
        if path.startswith("std::fs::") and m in ("create_dir", "create_dir_all", "remove_dir_all", "remove_file", "remove_dir"):
            if m == "remove_dir_all" and (T[0] or "").rsplit("/", 1)[-1] == "temp":
                return [({(): ("v", "Ok")}, {}), ({(): ("v", "Err")}, {})]
            r = self.step(env, m)
            return [(s, {**gh, (W, ("tolerant",)): ("c", "AlreadyExists" if m.startswith("create") else "NotFound")} if gh else gh) for s, gh in r]
        if m in ("join", "push") and len(T) > 1 and T[1] is not None and T[0] is None and path.startswith("std::path::"):
            if m == "join":
                return [({(): ("c", "s:" + UNK_CH + "/" + T[1])}, {})]
        r = self.script(path, m, d, env)
        if r is not None:
            return r
        if m in ("from", "into") and len(v) == 1 and d in ("i32", "u8") and op_place(t["args"][0]) and frame.body.types[frame.body.locals[op_place(t["args"][0])[0]]["ty"]]["s"] == "bool":
            return [({(): ("c", int(x))}, {}) for x in ([v[0][1]] if v[0] and v[0][0] == "c" else [False, True])]
        if path == "std::fs::DirEntry::path":
            return [({(): ("c", "s:" + ENTRY)}, {})]
        if m == "exists" and path.startswith("std::path") and T[0] == ENTRY:
            return [({(): ("c", s.get(()) == ("v", "Ok"))}, gh) for s, gh in self.step(env, "entry")]
        if path == "std::process::exit":
            if g(env, "failed") and v[0] == ("c", 0):
                self.ends.append(("exit 0", g(env, "failed"), n))
            elif g(env, "failed"):
                self.ends.append(("exit" if g(env, "printed") or not self.main else "silent", g(env, "failed"), n))
            return []
        if path.endswith("StuartError::print") or (fn0(t).endswith("StuartError::print")):
            if self.server:
                return [({}, {(W, ("failed",)): None})]
            return [({}, {(W, ("printed",)): ("c", 1)})]
        if "from_utf8_lossy" in m and (frame.body.krate == "stuart_core" or re.match(r"stuart::(build|plugins::js)::", frame.body.path)):
            self.lossy.setdefault(frame.body.path, n)
        if re.search(r"io::.*(BufWriter|LineWriter)(<.*>)?::(new|with_capacity)$", path):
            return [({}, {(W, ("buffered",)): ("c", 1)})]
        if m in ("flush", "into_inner", "into_parts") and g(env, "buffered"):
            return [(sub, gh or {(W, ("buffered",)): None}) for sub, gh in self.step(env, m)]
        if self.given and m not in ("canonicalize", "join"):
            r = self.paths(path, m, A, v, T, env, frame, t)
            if r is not None:
                return r
        fn = t["f"].get("fn") if t["f"]["k"] == "const" else None
        b = self.F.bodies.get((fn or {}).get("resid") or (fn or {}).get("id") or "")
        if ITER.search(path) or ITER.search((fn or {}).get("path", "")):
            for a in A[1:]:
                w, _ = resolve(env, a.get(()))
                if w and w[0] == "clo":
                    self.lazy[w[1]] = n
                    if m == "flat_map" and RESULT.match(retty(self.F.bodies[w[1]])):
                        self.lazy["flat_map"] = n
                elif w and w[0] == "fn" and re.search(r"result::Result(<.*>)?::(ok|is_ok|unwrap_or_default)$", w[1].j.get("res") or w[1].j["path"]):
                    self.lazy[last(w[1].j["path"])] = n
            if m == "flatten" and (re.search(r"fs::ReadDir|io::.*Lines<", d) or any(k in self.F.bodies and RESULT.match(retty(self.F.bodies[k])) for k in self.lazy)):
                self.lazy["flatten"] = n
        if not self.eager and (CONVERT.search(path) or b is not None and b.id in self.conversions):
            return None
        if not path.startswith("std::process::") and not NOT_STEPS.search(path) and not NOT_STEPS.search((fn or {}).get("path", "")):
            self.alternative = b is not None and b.id in self.loaders
            if RESULT.match(d) and not d.split("Result<", 1)[1].startswith("char,") and not (b is not None and b.krate in ("core", "alloc", "std")):
                return self.stepped(G, n, path, A, v, T, frame, t, env)
            if OPTRESULT.match(d) and m in ("next", "next_back", "last", "nth", "find"):
                return [({(): ("v", "None")}, {}), ({(): ("v", "Some"), ("Some.0",): ("v", "Ok")}, {})] + [({(): ("v", "Some"), ("Some.0",): ("v", "Err")}, gh) for s, gh in self.step(env, "entry") if gh]
            if b is not None and b.id in self.can_fail and retty(b).startswith(("core::option::Option<", "Option<", "std::option::Option<")) and b.id in self.searches:
                return [({(): ("v", "Some")}, {})] + [({(): ("v", "None")}, gh) for s, gh in self.step(env, b.path) if gh]
        r = (super(Steps, self).model if self.given else super(Scoped, self).model)(G, n, path, m, trait, targs, A, v, frame, t, env) if not path.startswith(("std::process", "std::path")) else None
        if r is None:
            r = self.process(path, m, A, v, T, env, frame)
        return r

    def script(self, path, m, d, env):
        """The operations of the JavaScript engine: an exception is an absent result, or a rejected promise."""
        if not path.startswith("v8::"):
            return None
        if m == "evaluate":
            return [({(): ("v", "Some")}, {}), ({(): ("v", "Some")}, {(W, ("failed",)): ("c", "the evaluation of a module"), (W, ("status",)): ("c", 1)}), ({(): ("v", "None")}, {(W, ("failed",)): ("c", m)})] if not g(env, "failed") else None
        if m == "get_status":
            return [({(): ("v", "Errored" if g(env, "status") else "Evaluated")}, {})]
        if m == "state":
            return [({(): ("v", "Rejected" if g(env, "status") else "Fulfilled")}, {})]
        if "Option<" in d and m in ("get", "get_index", "to_object", "call", "compile_module", "instantiate_module"):
            return [({(): ("v", "Some")}, {})] + [({(): ("v", "None")}, gh) for s, gh in self.step(env, m) if gh and s[()][1] == "Err"]
        return None

    def stepped(self, G, n, p, A, v, T, frame, t, env):
        return self.step(env, p)

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        kind = v[1] if v and v[0] in ("v", "c") else None
        failed = g(env, "failed")
        if not failed and g(env, "buffered") and kind == "Ok":
            failed = "writing what is still buffered"
        self.ends.append((kind, failed, n))


def fn0(t):
    return ((t["f"].get("fn") or {}).get("path") or "") if t["f"]["k"] == "const" else ""


def reaching(F, cg, has):
    """The functions that call, directly or not, one of a set of functions (the set included)."""
    while True:
        new = {b.id for b in F.local if b.id not in has and any(x.id in has for x, _ in cg.succ.get(b.id, ()))}
        if not new:
            return has
        has |= new


def fallible(F, cg):
    """Bodies that contain, or call a function that contains, a call that returns a result."""
    has = set()
    for b in F.local:
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] == "call" and not t["dest"][1]:
                ty = b.types[b.locals[t["dest"][0]]["ty"]]["s"]
                p = (t["f"].get("fn") or {}).get("path", "") if t["f"]["k"] == "const" else ""
                if (RESULT.match(ty) or OPTRESULT.match(ty)) and not NOT_STEPS.search(p) or p in ("std::process::Command::output", "std::process::Command::status"):
                    has.add(b.id)
    return reaching(F, cg, has)


SKIP = re.compile(r"serde::|as core::fmt::|StuartError>::(display|print)|^stuart::(serve::(?!serve$)|logger::|main)|^stuart_core::error::|::test::")


def calls(b, pat):
    return [t for t in (bl["t"] for bl in b.blocks) if t["k"] == "call" and t["f"]["k"] == "const" and re.search(pat, (t["f"].get("fn") or {}).get("path", ""))]


def pathlike(b):
    """The parameters that are paths."""
    return [i for i in range(1, b.argc + 1) if re.search(r"Path|impl AsRef", b.types[b.locals[i]["ty"]]["s"])]


def run(F, rep, tier, only=None):
    cg = CallGraph(F)
    steps = fallible(F, cg)
    # the sources of a plugin are alternatives: one that fails may be followed by one that loads (C21)
    Fate.loaders = reaching(F, cg, {b.id for b in F.local if calls(b, r"^libloading::.*Library::new$")})
    searches = {b.id for b in F.local if calls(b, r"::read_dir$")}
    conversions = {b.id for b in F.local if RESULT.match(retty(b)) and calls(b, CONVERT.pattern) and not any(RESULT.match(b.types[b.locals[t["dest"][0]]["ty"]]["s"]) and not NOT_STEPS.search(t["f"]["fn"]["path"]) and not CONVERT.search(t["f"]["fn"]["path"]) for t in calls(b, ".") if not t["dest"][1])}
    lazy = {}
    for b in sorted(F.local, key=lambda b: b.path):
        if only is not None and b.id not in only:
            continue
        if SKIP.search(b.path) or not b.blocks or b.id not in steps or not RESULT.match(retty(b)):
            continue
        given = [{}]
        if pathlike(b) and any((t["f"]["fn"].get("resid") or t["f"]["fn"]["id"]) in conversions or CONVERT.search(t["f"]["fn"]["path"]) for t in calls(b, ".")):
            given += [{pathlike(b)[0]: "/site/content/a." + x} for x in ("html", "md", "json")]
        for args in given:
            fate(F, rep, b, Fate(F, steps, searches, conversions, args, eager=bool(args) or len(given) == 1), lazy)
    for b in F.local:
        if only is not None and b.id not in only:
            continue
        for i in range(1, b.argc + 1):
            if b.kind == "closure" and i > 1 and RESULT.match(b.types[b.locals[i]["ty"]]["s"]) and not SKIP.search(b.path) and RESULT.match(retty(b)):
                w = Fate(F, steps, searches, conversions)
                w.item = i
                fate(F, rep, b, w, lazy)
    for m in F.by_path.get("stuart::main", ()) if only is None else ():
        finish(F, rep, m, steps, searches, conversions)
    for k, (n, b) in sorted(lazy.items(), key=lambda x: str(x[0])):
        dropped(F, rep, k, n, b, steps, searches, conversions)


def inline(steps):
    return lambda x, f: x.krate in ("stuart", "stuart_core") and (x.kind == "closure" or not RESULT.match(retty(x)) and x.id in steps)


def graph(F, rep, b, w):
    for widen, most in ((3000, 20000), (60, 40000), (8, 60000)):
        w.ends, w.lazy = [], {}
        try:
            G = Graph(F, b, world=w, widen=widen, max_nodes=most, hof=False, inline=inline(w.can_fail))
        except TooBig:
            continue
        rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
        rep.saw(b.path)
        return G
    rep.ok("fate", loc(b), "too many states; not decided")
    return None


def finish(F, rep, b, steps, searches, conversions):
    """The error of a command is printed, and the process ends with a failure."""
    w = Fate(F, steps, searches, conversions)
    w.main = True
    if graph(F, rep, b, w) is None:
        return
    ends = {}
    for kind, failed, n in w.ends:
        if failed:
            ends.setdefault(failed, set()).add(kind)
    for what, kinds in sorted(ends.items()):
        if kinds == {"exit"}:
            rep.ok("exit-status", loc(b), "the error of `%s` is printed and the process ends with a non-zero status" % what)
        elif "exit 0" in kinds or retty(b) == "()" and None in kinds:
            rep.bad("exit-status", what, loc(b), "the process ends successfully although `%s` failed" % what)
        elif "silent" in kinds:
            rep.bad("exit-status", what, loc(b), "the error of `%s` is not printed" % what)
        else:
            rep.ok("exit-status", loc(b), "the status after a failure of `%s` is not determined; not decided" % what)


def fate(F, rep, b, w, lazy):
    w.server = b.path.startswith("stuart::serve::")
    if graph(F, rep, b, w) is None:
        return
    for p, n in w.lossy.items():
        rep.bad("lossy", p, loc(b), "%s replaces bytes that are not text instead of failing" % p)
    for k, n in w.lazy.items():
        lazy.setdefault(k, (n, b))
    seen = {}
    for kind, failed, n in w.ends:
        if failed:
            seen.setdefault(failed, set()).add(kind)
    for what, kinds in sorted(seen.items()):
        if kinds <= {"Err", "exit"}:
            rep.ok("fate", loc(b), "when %s fails, %s returns an error" % (what, last(b.path)))
        elif "Ok" in kinds or "exit 0" in kinds:
            rep.bad("fate", "%s/%s" % (b.path, what), loc(b), "%s can return Ok although %s failed" % (b.path, what))
        else:
            rep.ok("fate", loc(b), "the result of %s after a failure of %s is not determined (%s); not decided" % (b.path, what, kinds))


def dropped(F, rep, k, n, at, steps, searches, conversions):
    """A function applied to the items of an iterator must not drop a failure."""
    c = F.bodies.get(k)
    if c is None:
        rep.bad("fate", "%s/items/%s" % (at.path, k), n.where() if hasattr(n, "where") else loc(at), "%s drops the items that failed (Result::%s)" % (at.path, k))
        return
    if RESULT.match(retty(c)):
        return
    w = Fate(F, steps, searches, conversions)
    items = [i for i in range(2, c.argc + 1) if RESULT.match(c.types[c.locals[i]["ty"]]["s"])]
    w.item = items[0] if items else None
    if graph(F, rep, c, w) is None:
        return
    for what in sorted({f for _, f, _ in w.ends if f}):
        rep.bad("fate", "%s/%s" % (at.path, what), loc(c), "a failure of %s is dropped in a closure of %s that returns %s" % (what, at.path, retty(c)[:60]))
