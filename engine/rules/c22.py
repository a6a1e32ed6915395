"""Step-by-step interpretation of project loading and of the build on known paths (engine/commands.py): every step that
leaves the crate is recorded with its known arguments and may succeed or fail. On the resulting set of traces: all pre-build
scripts run before any step that reads the content, all post-build scripts run after the output and (when enabled) the
metadata are written and nothing is written after them; a script that does not start or exits unsuccessfully ends the build
with an error and no further step; every script is given the five documented variables, equal to the paths and the
environment that the other steps of the same trace use. The environment that templates see is determined by interpreting
Stuart::build on a process environment that has another STUART_ENV."""
import posixpath
from .common import *
from commands import Steps, enters, ROOT
from frames import python, Unknown
from world import text
from graph import Graph

PRE, POST = ("onPreBuild", "onPreBuild.sh"), ("onPostBuild", "onPostBuild.sh")
PROJECTS = [("site/my.toml", "out"), ("stuart.toml", "/abs/out"), ("/abs/deep/er/stuart.toml", "../o/dist")]


def loaded(F, rep, manifest, output, stuart_env, names):
    """The contexts that project loading can produce: [(fields of the context, trace)]."""
    b = F.get(INIT)
    if b is None or b.argc < 3:
        return []
    path = manifest if manifest.startswith("/") else ROOT + "/" + manifest
    d = path.rsplit("/", 1)[0]
    w = Steps(F, {1: manifest, 2: output, 3: stuart_env}, listing={d + "/scripts": names})
    try:
        G = Graph(F, b, world=w, widen=4000, max_nodes=40000, inline=enters)
    except TooBig:
        return []
    note(rep, G)
    out = []
    for kind, env, lost in w.ends:
        if kind == "Ok" and not lost:
            sub = {k[1][1:] if k[1][0] == "Ok.0" else k[1]: v for k, v in env.items() if k[0] == (0, 0) and k[1][:1] == ("Ok.0",)}
            if (sub, w.trace(env)) not in out:
                out.append((sub, w.trace(env)))
    return out


def note(rep, G):
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate in ("stuart", "stuart_core")})


def traces(F, rep, sub):
    """The traces of the build in a context: [(outcome, trace, context afterwards)]."""
    b = F.get(BUILD)
    if b is None:
        return None
    w = Steps(F, {1: sub})
    try:
        G = Graph(F, b, world=w, widen=4000, max_nodes=60000, inline=enters)
    except TooBig:
        return None
    note(rep, G)
    return [(kind, w.trace(env), {k[1]: v for k, v in env.items() if k[0] == ("P", 1) and not (v[0] in ("&", "d") and isinstance(v[1][0][0], int))}) for kind, env, lost in w.ends if not lost and kind in ("Ok", "Err")]


def script(ev):
    """The name of the script a step runs."""
    if ev[0] in ("run", "spawn"):
        for x in (ev[1],) + ev[2]:
            if x and x.rsplit("/", 1)[-1] in PRE + POST:
                return x.rsplit("/", 1)[-1]
    return None


def run(F, rep, tier):
    templates(F, rep)
    n = 0
    for manifest, output in PROJECTS:
        for sub, before in loaded(F, rep, manifest, output, "ENV", ["onPreBuild", "onPreBuild.sh", "onPostBuild", "onPostBuild.sh"]):
            if not any(e[0] == "read" and e[-1] == "ok" for e in before):
                continue
            for meta in (True, False):
                s = dict(sub)
                s[("stuart", "config", "save_metadata")] = ("c", meta)
                todo, seen = [s], []
                # later builds start from what earlier ones left
                while todo and len(seen) < 4:
                    s = todo.pop(0)
                    seen.append(s)
                    for kind, tr, after in traces(F, rep, s) or ():
                        n += 1
                        judge(F, rep, kind, tr, before, meta, manifest)
                        if after not in todo + seen:
                            todo.append(after)
    rep.counts["traces"] = n
    if not n:
        rep.ok("order", "stuart/src/build.rs", "the traces of the build are not determined; not decided")


def judge(F, rep, kind, tr, before, meta, manifest):
    at = loc(F.get(BUILD))
    runs = [(i, e, script(e)) for i, e in enumerate(tr) if e[0] in ("run", "spawn") and script(e)]
    core = [i for i, e in enumerate(tr) if e[0].startswith("stuart_core::")]
    shown = "; ".join("%s %s" % (" ".join(str(x) for x in e[:2]) if not script(e) else script(e), e[-1]) for e in tr)
    # a script that fails ends the build
    for i, e, s in runs:
        if e[0] == "run" and e[-1] != "ok":
            good = kind == "Err" and i == len(tr) - 1
            rep.check(good, "failure", "%s/%s" % ("pre" if s in PRE else "post", e[-1]), at, "a script that %s ends the build with an error%s" % ("cannot be started" if e[-1] == "not started" else "exits unsuccessfully", "" if good else ": %s -> %s" % (shown, kind)))
    # order
    for i, e, s in runs:
        if s in PRE:
            early = [tr[j][0] for j in core if j < i] + [x[0] for x in tr[:i] if x[0].startswith("read") and "/content" in str(x[1])]
            rep.check(not early, "pre-first", "order", at, "pre-build scripts run before any content is read%s" % ("" if not early else ": after %s" % last(early[0])))
        else:
            late = [x[0] for x in tr[i + 1:] if not script(x) and x[-1] != "failed"]
            rep.check(not late, "post-last", "after", at, "nothing is read or written after a post-build script%s" % ("" if not late else ": %s" % last(late[0])))
            saved = [x for x in tr[:i] if x[0] == "stuart_core::Stuart::save" and x[-1] == "ok"]
            rep.check(bool(saved), "post-last", "save", at, "post-build scripts run after the output was written")
            if meta:
                done = [x for x in tr[:i] if any(str(y).endswith("metadata.json") for y in x[1:-1]) and x[-1] == "ok"]
                rep.check(bool(done), "post-last", "metadata", at, "post-build scripts run after the metadata was written")
    for i, e, s in runs:
        if e[0] == "spawn" and e[-1] == "started":
            nxt = tr[i + 1:i + 2]
            rep.check(bool(nxt) and nxt[0][0] == "run", "finished", s in PRE and "pre" or "post", at, "a script is waited for")
    if kind == "Ok":
        ran = [s for _, e, s in runs if e[-1] == "ok" and e[0] == "run"]
        for s in PRE + POST:
            rep.check(ran.count(s) == 1, "every-script", s, at, "a successful build has run %s once" % s + ("" if ran.count(s) == 1 else " (%d times): %s" % (ran.count(s), shown)))
        variables(rep, at, tr, before, runs)


def variables(rep, at, tr, before, runs):
    man = [e[1] for e in before if e[0] in ("read_to_string", "read") and len(e) > 2 and e[1] and e[1].endswith(".toml")]
    save = [e[1] for e in tr if e[0] == "stuart_core::Stuart::save" and len(e) > 2]
    dirs = [e[1] for e in tr if e[0].startswith("stuart_core::fs::Node::new") and len(e) > 2] + [e[1] for e in tr if e[0] == "remove_dir_all"]
    envs = [e[1] for e in tr if e[0] == "stuart_core::Stuart::build" and len(e) > 2]
    want = {}
    if len(man) == 1:
        want["STUART_MANIFEST_PATH"] = [man[0]]
        want["STUART_MANIFEST_DIR"] = [man[0].rsplit("/", 1)[0]]
    if save:
        want["STUART_OUT_DIR"] = save[:1]
    if dirs:
        want["STUART_TEMP_DIR"] = [d for d in dirs if d.endswith("/temp")] or dirs
    if envs:
        want["STUART_ENV"] = envs[:1]
    for _, e, s in runs:
        if e[0] != "run":
            continue
        got = dict(e[3]) if e[3] is not None else {}
        if None in got or "\ufffd" in "".join(str(v) for v in got.values() if v):
            rep.ok("variables", at, "the environment of %s is not determined; not decided" % s)
            continue
        for k in ("STUART_MANIFEST_PATH", "STUART_MANIFEST_DIR", "STUART_TEMP_DIR", "STUART_OUT_DIR", "STUART_ENV"):
            if k not in got:
                rep.bad("variables", "missing/%s" % k, at, "%s is not given %s" % (s, k))
            elif got[k] is None or k not in want:
                rep.ok("variables", at, "%s: not determined; not decided" % k)
            else:
                ok = k == "STUART_ENV" and got[k] in want[k] or k != "STUART_ENV" and posixpath.normpath(got[k]) in map(posixpath.normpath, want[k])
                rep.check(ok, "variables", k, at, "%s names what the build uses: %r%s" % (k, got[k], "" if ok else " is not %r" % want[k][0]))


class Core(Steps):
    """The world of Stuart::build: the tree is read and rendered in single steps."""
    STEP = re.compile(r"^stuart_core::(fs::Node::|Stuart::(build_node|preprocess)|Environment|parse|process::Node)|^humphrey")
    VARS = [("A", "1"), ("STUART_ENV", "outer"), ("B", "2"), ("STUART_ENVX", "decoy")]

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path in ("std::env::vars", "std::env::vars_os"):
            return [(self.iterate([{("0",): ("c", "s:" + a), ("1",): ("c", "s:" + b)} for a, b in self.VARS]), {})]
        if path in ("std::env::var", "std::env::var_os"):
            s = text(env, v[0])
            d = dict(self.VARS)
            k = "Ok" if m == "var" else "Some"
            if s is not None:
                absent = [({(): ("v", "Err" if m == "var" else "None")}, {})] if s not in d else []
                return [({(): ("v", k), (k + ".0",): ("c", "s:" + d.get(s, "foreign"))}, {})] + absent
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)


def templates(F, rep):
    b = F.get("stuart_core::Stuart::build")
    if b is None or b.argc != 2:
        rep.ok("template-env", "stuart-core/src/lib.rs", "not recognised; not decided")
        return
    w = Core(F, {2: "ENV"})
    try:
        G = Graph(F, b, world=w, widen=4000, max_nodes=40000, inline=lambda x, f: x.krate == "stuart_core")
    except TooBig:
        rep.ok("template-env", loc(b), "too many states; not decided")
        return
    note(rep, G)
    n = 0
    for kind, env, lost in w.ends:
        if kind != "Ok" or lost:
            continue
        pl = (("P", 1), ("base", "Some.0", "variables"))
        k = env.get((pl[0], pl[1] + ("#",)))
        if k is None:
            continue
        for j in range(k[1]):
            if text(env, ("&", (pl[0], pl[1] + ("[%d]" % j, "0")), False)) != "env":
                continue
            try:
                d = python(env, (pl[0], pl[1] + ("[%d]" % j, "1")))
            except Unknown:
                continue
            n += 1
            rep.check(isinstance(d, dict) and d.get("STUART_ENV") == "ENV", "template-env", "STUART_ENV", loc(b), "`$env.STUART_ENV` is the environment of the build%s" % ("" if isinstance(d, dict) and d.get("STUART_ENV") == "ENV" else ", not %r" % (d.get("STUART_ENV") if isinstance(d, dict) else d)))
    if not n:
        rep.ok("template-env", loc(b), "not determined; not decided")
