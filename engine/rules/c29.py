"""Interpretation of the whole command-line program from `main` on, with `--quiet` given: the logger that main registers is
tracked, every other setting, argument and result is open. No path may reach a primitive that prints (standard output and
error, terminal writers, processes that inherit them), except inside the printing of an error; a text that is printed as
an error must follow a failure. Functions that the interpretation of main does not enter (destructors, request handlers) are
interpreted on their own with the same logger. In the core library no function contains such a primitive."""
from .common import *
from commands import Steps, S
from world import LEN, UNK_CH, W, g, resolve, text, under
from graph import Graph

PRIM = re.compile(r"^std::process::Stdio::inherit$|^std::io::(stdio::)?(_print|_eprint|stdout|stderr)$|^termcolor::(BufferWriter::print|StandardStream|BufferedStandardStream)")
INHERIT = re.compile(r"^std::process::Command::(status|spawn)$")
LOG = ("LOGGER",)
ERR = "stuart::error::StuartError"


class Quiet(Steps):
    STEP = re.compile(r"^stuart_core::(?!Stuart::(new|with_\w+)$)")

    def __init__(self, F, logger=None):
        super().__init__(F)
        self.logger, self.registered = logger, []
        self.printed, self.unfailed = {}, {}

    def start(self, G, env):
        env.update(self.statics)
        env[(W, ("trace",))] = ("c", ())
        env[(W, ("failed",))] = ("c", 0)
        if self.logger is not None:
            env[(W, ("registered",))] = ("c", 1)
            for k, x in self.logger.items():
                env[(LOG, k)] = x
            b = G.root_body
            for i in range(1, b.argc + 1):
                if re.match(r"&(mut )?(stuart::)?logger::Logger$", b.types[b.locals[i]["ty"]]["s"]):
                    env[((0, i), ())] = ("&", (LOG, ()), False)

    def step(self, env, *ev, outcomes=None):
        out = []
        for sub, mark in outcomes or (({(): ("v", "Ok")}, "ok"), ({(): ("v", "Err")}, "failed")):
            out.append((sub, {(W, ("failed",)): ("c", 1)} if mark in ("failed", "not started", "unsuccessful") else {}))
        return out

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        ty0 = frame.body.types[frame.body.locals[t["args"][0]["p"][0]]["ty"]]["s"] if t["args"] and t["args"][0]["k"] != "const" else ""
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        if PRIM.match(path):
            self.printed.setdefault(n.loc(), (n, last(path)))
            return None
        if INHERIT.match(path) and not self.redirected(frame.body):
            self.printed.setdefault(n.loc(), (n, "a process that inherits the terminal"))
        if m == "print" and "StuartError" in (trait or "") + path:
            if g(env, "failed") == 0 and re.search(r"^&*(str|alloc::string::String|std::string::String)$", ty0 + ("" if ty0 else targs)):
                self.unfailed.setdefault(n.loc(), n)
            return [({}, {})]
        if path.startswith("clap::"):
            if m in ("is_present", "get_flag", "contains_id") and len(T) > 1:
                return [({(): ("c", True)}, {})] if T[1] == "quiet" else [({(): ("c", True)}, {}), ({(): ("c", False)}, {})]
            return None
        if re.match(r"(once_cell|std|core)::.*Once(Cell|Lock)(<.*>)?::(set|get|get_or_init|get_mut_or_init)$", path) and re.search("Logger", d + targs + ty0):
            if m == "set":
                self.registered.append({k: x for k, x in A[1].items() if x[0] in ("c", "v")})
                return [({(): ("v", "Ok")}, {**{(LOG, k): x for k, x in A[1].items() if x[0] in ("c", "v")}, (W, ("registered",)): ("c", 1)})]
            if not g(env, "registered"):
                return [({(): ("v", "None")}, {})] if m == "get" else None
            r = ("&", (LOG, ()), False)
            return [({(): ("v", "Some"), ("Some.0",): r} if m == "get" else {(): r}, {})]
        if re.search(r"sync::atomic::Atomic", path):
            w, pl = resolve(env, v[0]) if v else (None, None)
            if m == "new" and len(A) == 1:
                return [({("atom",): v[0]} if v[0] else {}, {})]
            if pl is not None and m == "load":
                x = env.get((pl[0], pl[1] + ("atom",)))
                return [({(): x}, {})] if x else None
            if pl is not None and m in ("store", "swap", "fetch_or", "fetch_and", "compare_exchange"):
                return [({}, {(pl[0], pl[1] + ("atom",)): v[1] if m in ("store", "swap") and v[1] else None})]
        if m in ("eq", "ne") and len(v) == 2:
            x, y = (resolve(env, z)[0] for z in v)
            while x and x[0] == "&":
                x = env.get(x[1])
            while y and y[0] == "&":
                y = env.get(y[1])
            if x and y and x[0] == "v" and y[0] == "v" and (x != y or self.plain(x[1])):
                return [({(): ("c", (x == y) == (m == "eq"))}, {})]
        if re.match(r"std::thread::.*spawn", path):
            out = self.apply(G, n, env, A[-1], []) or [({}, env)]
            return [({}, {k: x for k, x in e2.items() if k[0] in (W, LOG) and env.get(k) != x}) for _, e2 in out]
        if path.startswith("humphrey"):
            return self.step(env, m) if d.startswith("std::result::Result<") else [({}, {})]
        if path == "std::process::exit":
            return []
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if r is None and d.startswith("std::result::Result<") and not re.search(r"core::result::|core::option::|core::fmt|std::fmt|Try|FromResidual|::lock$", path):
            b = self.F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
            if b is None or b.krate != "stuart":
                return self.step(env, m)
        return r

    def plain(self, name):
        """Whether a variant of this name has no fields, in every enum of the crates that has one."""
        vs = [x for a in self.F.adts.values() if a["local"] and a.get("kind") == "enum" for x in a["variants"] if x["name"] == name]
        return bool(vs) and not any(x["fields"] for x in vs)

    def redirected(self, b):
        calls = {last((bl["t"]["f"].get("fn") or {}).get("path", "")) for bl in b.blocks if bl["t"]["k"] == "call" and bl["t"]["f"]["k"] == "const" and "process::Command::" in (bl["t"]["f"].get("fn") or {}).get("path", "")}
        return {"stdout", "stderr"} <= calls

    def free(self, G, n, v, pl, env):
        return True

    def exit(self, G, n, env):
        pass


def interpret(F, rep, b, logger=None, most=150000, wid=8):
    w = Quiet(F, logger)
    try:
        G = Graph(F, b, world=w, widen=wid, max_nodes=most, inline=lambda x, f=None: x.krate == "stuart" and not (x.path.endswith("::print") and "StuartError" in x.path))
    except TooBig:
        return w, None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart"})
    return w, G


def run(F, rep, tier):
    cg = CallGraph(F)
    core = [b for b in F.bodies.values() if b.krate == "stuart_core"]
    noisy = 0
    for b in core:
        for p, *_ in cg.ext.get(b.id, ()):
            if PRIM.match(p) or INHERIT.match(p):
                noisy += 1
                rep.bad("core-silent", "%s/%s" % (b.path, last(p)), loc(b), "the core library prints: %s is called" % p)
    if not noisy:
        rep.ok("core-silent", "stuart-core", "none of the %d functions of the core library prints" % len(core))

    b = F.get("stuart::main")
    if b is None:
        rep.ok("quiet", "stuart/src/main.rs", "main was not found; not decided")
        return
    w, G = interpret(F, rep, b)
    seen = {f.body.id for f in G.frames} if G else set()
    judge(rep, b, w)
    levels = []
    for x in w.registered:
        if x not in levels:
            levels.append(x)
    if G is None:
        rep.ok("quiet", loc(b), "too many paths; functions are judged one by one")
    if not levels:
        rep.ok("quiet", loc(b), "the registration of the logger was not recognised; not decided")
        return
    rep.check(True, "registered", "main", loc(b), "with --quiet, main registers a logger with %s" % "; ".join(sorted(show_logger(x) for x in levels)))
    noisy = {x.id for x in F.local if x.krate == "stuart" and any(PRIM.match(p) or INHERIT.match(p) for p, *_ in cg.ext.get(x.id, ()))}
    # what main does not enter
    for x in sorted((x for x in F.local if x.krate == "stuart" and x.id not in seen and x.blocks), key=lambda x: x.path):
        if "StuartError" in x.path and "::print" in x.path or not reaches(cg, x, noisy):
            continue
        for lg in levels:
            w, G = interpret(F, rep, x, logger=lg)
            if G is None:
                rep.ok("quiet", loc(x), "%s: too many paths; not decided" % x.path)
            judge(rep, x, w)


def show_logger(x):
    return ", ".join("%s = %s" % (".".join(y for y in k if y != "atom"), v[1]) for k, v in sorted(x.items()))


def reaches(cg, x, ids):
    todo, seen = [x.id], {x.id}
    while todo:
        i = todo.pop()
        if i in ids:
            return True
        for c, _ in cg.succ.get(i, ()):
            if c.id not in seen:
                seen.add(c.id)
                todo.append(c.id)
    return False


def judge(rep, b, w):
    for at, (n, what) in sorted(w.printed.items()):
        rep.bad("quiet", "%s/%s" % (root(n), what), "%s (%s)" % (at, n.body.path), "with --quiet, %s is reached in %s" % ("`%s`" % what if not what.startswith("a ") else what, n.body.path))
    for at, n in sorted(w.unfailed.items()):
        rep.bad("errors-only", "%s/print" % root(n), "%s (%s)" % (at, n.body.path), "a message is printed as an error although nothing failed")
    if not w.printed and not w.unfailed:
        rep.ok("quiet", loc(b), "no path of %s prints anything but errors" % b.path)


def root(n):
    return n.body.path
