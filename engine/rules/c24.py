"""Step-by-step interpretation of the development server from `serve` on, over sequences of file events (engine/commands.py):
the manifest, the output directory, the events and the open connections are given; every rebuild and every message to a
connection may succeed or fail. On the resulting set of traces: a change is followed by exactly one rebuild before the next
event is awaited; after a rebuild that succeeded every connection is sent one message, after one that failed none and the
error is printed; a connection is dropped exactly when sending to it failed; nothing after the first event ends the server;
and events about the paths that the build itself writes (taken from the steps of the build on the same settings) cause no
rebuild."""
import posixpath
from .common import *
from commands import Steps, ROOT, S, join
from frames import Unknown
from world import LEN, UNK_CH, W, g, gs, resolve, text, under
from graph import Graph

SERVE = "stuart::serve::serve"
STREAMS, LOG = ("STREAMS",), ("LOGGER",)
IDS = ("a", "b", "c")


def comps(p):
    return [x for x in p.split("/") if x not in ("", ".")]


def connections(env):
    """The open connections that the server keeps; (None,) if they are not known."""
    k = env.get((STREAMS, LEN))
    return tuple(text(env, env.get((STREAMS, ("[%d]" % j, "id")))) for j in range(k[1])) if k else (None,)


class Serve(Steps):
    def __init__(self, F, manifest, output, events, build=True):
        super().__init__(F)
        self.opts = {"manifest-path": manifest, "output": output}
        self.incoming, self.asstep, self.locked, self.watched = events, build, set(), []

    def start(self, G, env):
        super().start(G, env)
        env[(W, ("event",))] = ("c", 0)
        for k, v in self.made([{("id",): ("c", "s:" + x)} for x in IDS]).items():
            env[(STREAMS, k)] = v

        # the logger, at its normal level
        for path, a in self.F.adts.items():
            if a["local"] and a["kind"] != "enum" if "kind" in a else a["local"] and len(a["variants"]) == 1:
                for f in a["variants"][0]["fields"]:
                    ty = a["types"][f["ty"]]
                    e = self.F.adts.get(ty.get("path") or "")
                    if e is not None and e["local"] and {"Quiet", "Normal"} <= {x["name"] for x in e["variants"]}:
                        env[(LOG, (f["name"],))] = ("v", self.level)

    level = "Normal"

    def step(self, env, *ev, outcomes=None):
        # starting the server is not at issue here
        r = super().step(env, *ev, outcomes=outcomes)
        if not g(env, "event") and ev[0] != "build":
            r = [(sub, {}) for sub, gh in r if self.trace(gh)[-1][-1] in ("ok", "started")] or r
        return r

    def note(self, env, *e):
        return {(W, ("trace",)): ("c", self.trace(env) + (e,))}

    def received(self, env):
        """The next event, as a RawEvent."""
        i = g(env, "event")
        if i >= len(self.incoming):
            self.ends.append(("waiting", dict(env), bool(g(env, "lost"))))
            return []
        e = self.incoming[i]
        ids = connections(env)
        sub = {("path",): ("v", "None")} if e is None else {("path",): ("v", "Some"), ("path", "Some.0"): ("c", "s:" + e)}
        return [(sub, {**self.note(env, "event", i, ids), (W, ("event",)): ("c", i + 1)})]

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        if path.startswith("clap::") and len(T) > 1 and m in ("value_of", "get_one", "value_of_os", "value_of_lossy") and T[1] in self.opts:
            return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + self.opts[T[1]])}, {})]
        if path.startswith("std::sync::mpsc::") or "mpsc" in path:
            if m in ("recv", "recv_timeout"):
                return [({(): ("v", "Ok"), **{("Ok.0",) + k: x for k, x in s.items()}}, gh) for s, gh in self.received(env)]
            if m == "next":
                return [({(): ("v", "Some"), **{("Some.0",) + k: x for k, x in s.items()}}, gh) for s, gh in self.received(env)]
            if m == "try_recv":
                return [({(): ("v", "Err")}, {})]
            if m in ("iter", "into_iter", "try_iter"):
                return [({}, {})]
        if m == "new" and "::Arc" in path and "WebsocketStream" in d:
            return [({("arc",): ("c", "%s:%d" % (frame.body.path, n.bb))}, {})]
        if m == "clone" and "WebsocketStream" in d and "Arc" in d:
            w, pl = resolve(env, v[0])
            x = env.get((pl[0], pl[1] + ("arc",))) if pl is not None else A[0].get(("arc",))
            return [({("arc",): x} if x else {}, {})]
        if m in ("lock", "try_lock") and path.startswith("std::sync") and "WebsocketStream" in d + targs:
            w, pl = resolve(env, v[0])
            x = None
            while pl is not None and x is None:
                x = env.get((pl[0], pl[1] + ("arc",)))
                pl = (pl[0], pl[1][:-1]) if pl[1] else None
            self.locked.add(x[1] if x else None)
            return [({(): ("v", "Ok"), ("Ok.0",): ("&", (STREAMS, ()), True)}, {})] + ([({(): ("v", "Err")}, {})] if m == "try_lock" else [])
        if m == "watch" and "notify::" in path and len(T) == 3:
            self.watched.append((T[1], v[2][1] if v[2] and v[2][0] == "v" else None))
            return [({(): ("v", "Ok")}, {})]
        if re.match(r"humphrey_ws::.*WebsocketStream::(send\w*|broadcast)$", path):
            w, pl = resolve(env, v[0])
            i = text(env, env.get((pl[0], pl[1] + ("id",)))) if pl is not None else text(env, A[0].get(("id",)))
            return self.step(env, "send", i)
        if "StuartError" in (trait or "") + path and m in ("print", "display"):
            return [({}, self.note(env, "print", "ok"))]
        if re.match(r"(once_cell|std|core)::.*Once(Cell|Lock)(<.*>)?::get(_or_init)?$", path) and "Logger" in d + targs:
            return [({(): ("&", (LOG, ()), False)} if m != "get" else {(): ("v", "Some"), ("Some.0",): ("&", (LOG, ()), False)}, {})]
        if not g(env, "event") and m in ("exists", "is_dir", "is_file") and path.startswith("std::path::"):
            return [({(): ("c", False)}, {})]
        if re.match(r"std::thread::.*spawn", path):
            # the thread is run to its end at once: it shares nothing with the others but the list of connections
            out = self.apply(G, n, env, A[-1], []) or [({}, env)]
            res = {(): ("v", "Ok")} if "Result<" in d else {}
            return [(res, {k: x for k, x in e2.items() if k[0] in (W, STREAMS) and env.get(k) != x}) for _, e2 in out]
        if re.match(r"humphrey::app::.*App(<.*>)?::run", path):
            return [({(): ("v", "Ok")}, {})]
        if path.startswith("humphrey::app::") and m in ("new_with_config", "new", "with_state"):
            for a in A:
                for k, x in a.items():
                    if k[-1:] == ("arc",):
                        return [({}, {(W, ("served",)): x})]
        if path.startswith("humphrey::"):
            return [({}, {})]
        if path == "std::process::exit":
            self.ends.append(("exit", dict(env), bool(g(env, "lost"))))
            return []
        if m in ("starts_with", "ends_with") and path.startswith("std::path::") and T[0] is not None and T[1] is not None and UNK_CH not in T[0] + T[1]:
            a, b = comps(T[0]), comps(T[1])
            return [({(): ("c", (T[0].startswith("/") == T[1].startswith("/") and a[:len(b)] == b) if m == "starts_with" else a[len(a) - len(b):] == b)}, {})]
        if m in ("eq", "ne") and len(T) == 2 and T[0] is not None and T[1] is not None and re.search("Path", path + targs) and UNK_CH not in T[0] + T[1]:
            return [({(): ("c", (comps(T[0]) == comps(T[1])) == (m == "eq"))}, {})]
        if m == "strip_prefix" and path.startswith("std::path::") and T[0] is not None and T[1] is not None:
            a, b = comps(T[0]), comps(T[1])
            return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:" + "/".join(a[len(b):]))} if a[:len(b)] == b else {(): ("v", "Err")}, {})]
        b = self.F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
        if b is not None and b.path == BUILD and self.asstep:
            return self.step(env, "build")
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if r is not None and m == "canonicalize":
            r = r[:1]
        return r

    def free(self, G, n, v, pl, env):
        return True

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        self.ends.append((v[1] if v and v[0] == "v" else "returned", env, bool(g(env, "lost"))))


def interpret(F, rep, w, most=60000):
    b = F.get(SERVE)
    try:
        G = Graph(F, b, world=w, widen=3000, max_nodes=most, inline=lambda x, f=None: x.krate == "stuart" or bool(re.match(r"stuart_core::Stuart::(new|with_\w+)$", x.path)))
    except TooBig:
        return None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart"})
    return G


BASE = ROOT + "/site"
CHANGES = [BASE + "/content/a.html", BASE + "/content/temp/b.html", BASE + "/static/metadata.json", BASE + "/outer/x", BASE + "/static/data.toml", None]


def own(output):
    """Events about what a build writes itself."""
    out = posixpath.normpath(output if output.startswith("/") else BASE + "/" + output)
    return ([out, out + "/index.html", out + "/a/b/index.html"] if out.startswith(BASE + "/") else []) + [
        BASE + "/temp", BASE + "/temp/x/y.html", BASE + "/metadata.json", BASE + "/_build/plugins/p/Cargo.toml"]


def run(F, rep, tier):
    b = F.get(SERVE)
    if b is None:
        rep.ok("anchor", "stuart/src/serve/mod.rs", "the development server was not found; not decided")
        return
    n = 0
    for output, events in [("out", [CHANGES[0], CHANGES[0]])] + [("out", [x]) for x in CHANGES[1:]]:
        n += judge(F, rep, b, output, events, set())
    for output in ("out", "./out", "a/../out", BASE + "/out", "/elsewhere/out"):
        for x in own(output):
            n += judge(F, rep, b, output, [x, CHANGES[0]], {0})
    rep.counts["traces"] = n
    registered(F, rep, b)


def judge(F, rep, b, output, events, silent):
    at = loc(b)
    w = Serve(F, "site/stuart.toml", output, events)
    if interpret(F, rep, w) is None:
        rep.ok("loop", at, "too many paths; not decided")
        return 0
    served = set()
    survived, lost_any = {}, False
    for kind, env, lost in w.ends:
        tr = w.trace(env)
        shown = "; ".join(" ".join(str(y) for y in e if not isinstance(y, tuple)) for e in tr) + " -> " + str(kind)
        lost_any |= lost
        first = next((i for i, e in enumerate(tr) if e[0] == "event"), None)
        if first is not None:
            served.add((env.get((W, ("served",))) or (0, None))[1])
        if first is None:
            bad = kind != "waiting" and tr and any(e == ("build", "failed") for e in tr)
            rep.check(not bad, "survives", "first build", at, "a first build that fails does not end the server" + (": " + shown if bad else ""))
            continue
        rep.check(kind == "waiting", "survives", "end", at, "nothing that happens after a change ends the server" + ("" if kind == "waiting" else ": " + shown))
        cuts = [i for i, e in enumerate(tr) if e[0] == "event"] + [len(tr)]
        now = connections(env)
        for k in range(len(cuts) - 1):
            e, seg = tr[cuts[k]], tr[cuts[k] + 1:cuts[k + 1]]
            i, ids = e[1], e[2]
            after = tr[cuts[k + 1]][2] if k + 2 < len(cuts) else now if kind == "waiting" else None
            builds = [j for j, x in enumerate(seg) if x[0] == "build"]
            sends = [(j, x) for j, x in enumerate(seg) if x[0] == "send"]
            if i in silent:
                rep.check(not builds, "own-writes", "%s/%s" % (output, (events[i] or "")[len(BASE):]), at, "a write to %s, with the output in `%s`, causes no rebuild" % (events[i], output))
                rep.check(bool(builds) or not sends, "only-good", "no build", at, "browsers reload only after a rebuild")
                continue
            done = len(builds) > 0
            if kind == "waiting":
                rep.check(done, "rebuilds", str(events[i]), at, "a change to %s is followed by a rebuild" % (events[i] or "an unknown file"))
            if not done:
                rep.check(not sends, "only-good", "no build", at, "browsers reload only after a rebuild")
                continue
            good = seg[builds[-1]][-1] == "ok"
            gone = {x[1] for j, x in sends if x[-1] == "failed"}
            survived.setdefault(i, set()).add((good, frozenset(gone))) if kind == "waiting" and not lost else None
            if None in ids or None in {x[1] for j, x in sends}:
                rep.ok("reload", at, "the connections are not determined; not decided")
                continue
            early = [x for j, x in sends if j < builds[-1]]
            if not good:
                rep.check(not sends, "only-good", "failed", at, "browsers are not told to reload after a rebuild that failed" + (": " + shown if sends else ""))
                told = kind != "waiting" or any(x[0] == "print" for x in seg[builds[-1]:])
                rep.check(told, "reported", "failed", at, "the error of a rebuild that failed is printed" + ("" if told else ": " + shown))
            elif kind == "waiting":
                rep.check(not early, "only-good", "early", at, "browsers are told to reload only after the rebuild")
                missed = set(ids) - {x[1] for j, x in sends}
                rep.check(not missed, "reload", "every", at, "every browser is told to reload after a rebuild that succeeded" + (": " + shown if missed else ""))
            if after is not None and None not in after and not lost:
                want = set(ids) - gone
                rep.check(set(after) >= want, "dropped", "kept", at, "a connection that works is kept" + ("" if set(after) >= want else ": lost %s: %s" % (sorted(want - set(after)), shown)))
                rep.check(set(after) <= want, "dropped", "dead", at, "a connection that is dead is dropped" + ("" if set(after) <= want else ": kept %s: %s" % (sorted(set(after) - want), shown)))
    for p, mode in w.watched:
        if p is not None and UNK_CH not in p:
            c = comps(p)
            rep.check(c == comps(BASE)[:len(c)] and (p.startswith("/") or not c), "rebuilds", "watched", at, "the project's directory is watched" + ("" if c == comps(BASE) else ", not `%s`" % p))
        if mode is not None:
            rep.check(mode == "Recursive", "rebuilds", "recursive", at, "files in directories inside the project are watched too")
    # what has no trace at all ends in a panic
    if not lost_any and any(k == "waiting" for k, _, _ in w.ends):
        for i in range(len(events)):
            if i in silent or not survived.get(i):
                continue
            rep.check(any(not g for g, x in survived[i]), "survives", "failed build", at, "a rebuild that fails leaves the server running")
            for x in (set(), {"a"}, {"b"}, {"c"}, {"a", "b"}, {"a", "c"}, {"b", "c"}, set(IDS)):
                good = (True, frozenset(x)) in survived[i]
                rep.check(good, "survives", "dead " + ",".join(sorted(x)), at, "the server survives %s" % ("a rebuild" if not x else "the loss of the connections %s" % ", ".join(sorted(x))))
    rep.check(any(k == "waiting" for k, _, _ in w.ends) or lost_any, "survives", "waits", at, "the server waits for changes")
    ids = {x for x in w.locked if x}
    if ids and None not in served and served:
        rep.check(ids <= served, "reload", "same list", at, "the connections that are told to reload are those that the server accepted")
    return len(w.ends)


class Accept(Serve):
    """One more connection, `n`, is accepted."""

    def __init__(self, F, i):
        super().__init__(F, "site/stuart.toml", "out", [])
        self.i = i

    def start(self, G, env):
        super().start(G, env)
        env[((0, self.i), ("id",))] = env[(("P", self.i), ("id",))] = ("c", "s:n")
        env[(W, ("event",))] = ("c", 1)


def registered(F, rep, b):
    """Every connection is added to the list."""
    found = False
    for c in F.local:
        if not c.path.startswith("stuart::serve::"):
            continue
        for i in range(1, c.argc + 1):
            if re.match(r"&?('[^ ]* )?(mut )?humphrey_ws::.*WebsocketStream$", c.types[c.locals[i]["ty"]]["s"]):
                break
        else:
            continue
        w = Accept(F, i)
        try:
            G = Graph(F, c, world=w, widen=3000, max_nodes=20000, inline=lambda x, f=None: x.krate == "stuart")
        except TooBig:
            continue
        rep.saw(c.path)
        found = True
        for kind, env, lost in w.ends:
            ids = connections(env)
            if lost or None in ids or kind == "exit":
                continue
            dead = {e[1] for e in w.trace(env) if e[0] == "send" and e[-1] == "failed"}
            want = {"a", "b", "c", "n"} - dead
            rep.check(set(ids) >= want, "reload", "accepted", loc(c), "a connection that is accepted joins the list, and those in it stay" + ("" if set(ids) >= want else ": without " + ", ".join(sorted(want - set(ids)))))
    if not found:
        rep.ok("reload", loc(b), "the function that accepts connections was not recognised; not decided")
