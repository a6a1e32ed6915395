"""Step-by-step interpretation of the loading of the dependencies (engine/commands.py) for tables and file systems in
which every kind of source occurs: script files, binaries, directories with a Cargo project, Git repositories (cloned and
cached), downloads, sources for other platforms and sources that do not exist. Every process, download, opened library
and loaded script is a step that may succeed or fail. On the resulting set of traces: the sources of a dependency are used
from left to right and none after one that loaded; loading succeeds only with exactly the plugins whose loading completed,
one for each dependency, registered in the manager that is returned; it fails only where every source of a dependency was
tried; within one source no plugin comes out of a failed download, clone, pull, compilation or write, and a compiled one is
that source's own; the error of a source that failed first is shown or returned."""
from .common import *
from . import c04
from commands import Steps, S
from world import UNK_CH, W, gs, resolve, text, under, LEN
from graph import Graph

LOAD = "stuart::plugins::load"
R = "/r"
PLUGIN = re.compile(r"Result<stuart_core::plugins::Plugin\b")
UNIX = (".dll",)     # sources for other platforms than the one that is analysed


class Loads(Steps):
    def __init__(self, F, table, files=(), dirs=(), repos=(), urls=()):
        super().__init__(F)
        self.table, self.files, self.dirs, self.repos, self.urls = table, set(files), {R} | set(dirs), set(repos), set(urls)
        self.cg = CallGraph(F)

    def start(self, G, env):
        super().start(G, env)
        b = G.root_body
        for i in range(1, b.argc + 1):
            s = b.types[b.locals[i]["ty"]]["s"]
            ref = b.ty(i)["k"] in ("ref", "ptr")
            r = ("P", i) if ref else (0, i)
            if "HashMap" in s or "BTreeMap" in s:
                pre = ("Some.0",) if "Option" in s else ()
                if pre:
                    env[(r, ())] = ("v", "Some")
                for k, v in self.made([{("0",): ("c", "s:" + n), ("1",): ("c", "s:" + x)} for n, x in self.table]).items():
                    env[(r, pre + k)] = v
            elif "Path" in s or "str" in s.lower():
                env[(r, ())] = ("c", "s:" + R)

    def ran(self, env, pl, how):
        r = super().ran(env, pl, how)
        args = env.get((pl[0], pl[1] + ("rest",)), ("c", ((), ())))[1][0]
        if "ls-remote" in args:
            # whether an address is that of a repository is settled in advance
            good = any(x in self.repos for x in args)
            return [x for x in r if (self.trace({(W, ("trace",)): x[1][(W, ("trace",))]})[-1][-1] == "ok") == good]
        return r

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        if "collections::hash" in path or "collections::btree" in path or "HashMap" in targs and m in ("iter", "into_iter", "keys", "values", "get", "len", "is_empty"):
            pl, sub = self.listing(env, A)
            if sub is not None:
                ks = self.items(sub)
                if pl is not None:
                    at = lambda i, j: {(): ("&", (pl[0], pl[1] + ("[%d]" % i, j)), False)}
                else:
                    at = lambda i, j: {k[1:]: x for k, x in ks[i].items() if k[:1] == (j,)}
                if m in ("iter", "into_iter"):
                    return [(self.iterate([{(j,) + k: x for j in "01" for k, x in at(i, j).items()} for i in range(len(ks))]), {})]
                if m in ("keys", "values", "into_keys", "into_values"):
                    return [(self.iterate([at(i, "0" if "keys" in m else "1") for i in range(len(ks))]), {})]
                if m in ("get", "index") and T[1] is not None:
                    i = [i for i, x in enumerate(ks) if text(env, x.get(("0",))) == T[1]]
                    sub = at(i[0], "1") if i else {}
                    return [(sub if m == "index" else {(): ("v", "Some"), **{("Some.0",) + k: x for k, x in sub.items()}} if i else {(): ("v", "None")}, {})]
        if m in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"):
            pl, sub = self.listing(env, A)
            if sub is not None and pl is not None:
                its = self.items(sub)
                keys = [tuple(text(env, w) for k, w in sorted(x.items())) for x in its]
                if all(None not in k for k in keys):
                    return [({}, self.put(env, pl, self.made([x for _, x in sorted(zip(keys, its), key=lambda p: p[0])])))]
        if m in ("split_terminator",) and T[0] and T[1]:
            return [(self.iterate([{(): ("c", "s:" + x)} for x in T[0].split(T[1])]), {})]
        # what exists
        a = T[0] if T else None
        if path.startswith("std::path::Path::") and a is not None and UNK_CH not in a and m in ("exists", "is_file", "is_dir", "try_exists"):
            touched = [x for x in self.trace(env) if x[0] not in ("read", "find", "print") and any(y == a or a.startswith(y + "/") for y in flat(x[1:-1]) if y.startswith("/"))]
            if touched or "/target" in a:
                # what a step left behind is not known
                return [({(): ("v", "Ok"), ("Ok.0",): ("c", e)} if m == "try_exists" else {(): ("c", e)}, {}) for e in (True, False)]
            e = a in self.files if m == "is_file" else a in self.dirs if m == "is_dir" else a in self.files | self.dirs
            return [({(): ("v", "Ok"), ("Ok.0",): ("c", e)} if m == "try_exists" else {(): ("c", e)}, {})]
        if path in ("std::fs::metadata", "std::fs::symlink_metadata", "std::path::Path::metadata") and a is not None:
            if a in self.files | self.dirs:
                return [({(): ("v", "Ok"), ("Ok.0", "dir"): ("c", a in self.dirs)}, {})]
            return [({(): ("v", "Err")}, {})]
        if path.startswith("std::fs::Metadata::") and m in ("is_file", "is_dir"):
            w, pl = resolve(env, v[0])
            x = env.get((pl[0], pl[1] + ("dir",))) if pl is not None else A[0].get(("dir",))
            if x is not None:
                return [({(): ("c", x[1] == (m == "is_dir"))}, {})]
        # the libraries that plugins come from
        if re.search(r"libloading::.*Library::(new|open)$", path):
            p = next((x for x in T if x is not None), None)
            return self.step(env, "library", p, outcomes=[({(): ("v", "Err")}, "failed"), ({(): ("v", "Ok"), ("Ok.0", "lib"): ("c", "s:" + (p or UNK_CH))}, "ok")])
        if re.search(r"libloading::.*Library::get\w*$", path):
            w, pl = resolve(env, v[0])
            p = env.get((pl[0], pl[1] + ("lib",))) if pl is not None else None
            p = text(env, p) if p is not None else None
            return self.step(env, "symbol", p, outcomes=[({(): ("v", "Err")}, "failed"), ({(): ("v", "Ok"), ("Ok.0", "from"): ("c", "s:" + (p or UNK_CH))}, "ok")])
        if m == "from_raw" and "Box" in path + d and "stuart_core::plugins::Plugin" in d + targs:
            lib = [e for e in self.trace(env) if e[0] == "symbol" and e[-1] == "ok"]
            return [({("plugin",): ("c", "s:" + (lib[-1][1] if lib and lib[-1][1] else UNK_CH))}, {})]
        b = self.F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
        if b is not None and b.krate == "stuart" and PLUGIN.search(d):
            p = next((x for x in T if x is not None), None)
            return self.step(env, "script", p, outcomes=[({(): ("v", "Err")}, "failed"), ({(): ("v", "Ok"), ("Ok.0", "plugin"): ("c", "s:" + (p or UNK_CH))}, "ok")])
        # finding and naming a Cargo project
        if b is not None and b.krate == "stuart" and re.search(r"Option<std::path::PathBuf>$", d) and a is not None and any(c.id == b.id or root_fn(self.F, c).id == b.id for x in [b] + [y for y in self.F.local if root_fn(self.F, y).id == b.id] for c, sp in self.cg.succ.get(x.id, ())):
            return self.step(env, "find", a, outcomes=[({(): ("v", "None")}, "failed"), ({(): ("v", "Some"), ("Some.0",): ("c", "s:" + a + "/proj")}, "ok")])
        if path == "std::fs::read_to_string" and a is not None and a.endswith("/Cargo.toml"):
            return self.step(env, "read", a, outcomes=[({(): ("v", "Err")}, "failed"), ({(): ("v", "Ok"), ("Ok.0",): ("c", "s:toml " + a)}, "ok")])
        if "toml" in path and m in ("from_str", "parse") and a is not None and a.startswith("toml "):
            return [({(): ("v", "Ok"), ("Ok.0", "toml"): ("c", "s:" + a)}, {})]
        if path == "core::str::str::parse" and a is not None and a.startswith("toml "):
            return [({(): ("v", "Ok"), ("Ok.0", "toml"): ("c", "s:" + a)}, {})]
        if "toml" in path and v:
            w, pl = resolve(env, v[0])
            x = env.get((pl[0], pl[1] + ("toml",))) if pl is not None else A[0].get(("toml",))
            if x is not None:
                if m in ("get", "index") and len(T) > 1:
                    sub = {("toml",): x}
                    if pl is not None:
                        sub = {(): ("&", pl, False)}
                    return [(sub if m == "index" else {(): ("v", "Some"), **{("Some.0",) + k: y for k, y in sub.items()}}, {})]
                if m in ("as_str", "as_table"):
                    sub = {(): ("c", "s:" + project(text(env, x)[5:]))} if m == "as_str" else {(): ("&", pl, False)} if pl is not None else {("toml",): x}
                    return [({(): ("v", "Some"), **{("Some.0",) + k: y for k, y in sub.items()}}, {})]
        if re.match(r"std::fs::(File::(create|create_new|options)|OpenOptions::open)$", path):
            p = next((x for x in T if x is not None), None)
            return self.step(env, "create", p)
        # downloads
        if path.startswith("humphrey") and v:
            if m == "get" and len(T) > 1 and T[1] is not None:
                return [({(): ("v", "Err")}, {}), ({(): ("v", "Ok"), ("Ok.0", "url"): ("c", "s:" + T[1])}, {})]
            w, pl = resolve(env, v[0])
            u = A[0].get(("url",)) or (env.get((pl[0], pl[1] + ("url",))) if pl is not None else None)
            if u is not None and m in ("with_redirects", "with_header"):
                return [({("url",): u}, {})]
            if u is not None and m == "send":
                u = text(env, u)
                if u not in self.urls:
                    return self.step(env, "download", u, outcomes=[({(): ("v", "Err")}, "failed")])
                return self.step(env, "download", u, outcomes=[({(): ("v", "Err")}, "failed"), ({(): ("v", "Ok"), ("Ok.0", "status_code"): ("v", "OK")}, "ok"), ({(): ("v", "Ok"), ("Ok.0", "status_code"): ("v", "NotFound")}, "refused")])
        if m in ("eq", "ne") and len(v) == 2:
            x, y = ((resolve(env, z)[0]) for z in v)
            if x and y and x[0] == y[0] == "v":
                return [({(): ("c", (x[1] == y[1]) == (m == "eq"))}, {})]
        if "StuartError" in (trait or "") + path and m in ("print", "display"):
            return [({}, {(W, ("trace",)): ("c", self.trace(env) + (("print", "ok"),))})]
        if path.startswith("std::io::") and m in ("_print", "_eprint"):
            return None
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        return r


def project(manifest):
    """The name of the package with a manifest."""
    return manifest.rsplit("/", 2)[-2] + "-pkg"


def run(F, rep, tier):
    b = F.get(LOAD)
    if b is None:
        rep.ok("anchor", "stuart/src/plugins/mod.rs", "plugins::load not found; not decided")
        return
    js = [x for x in F.local if PLUGIN.search(retty(x))]
    git, web = "https://host/repo.git", "https://host/plug.js"
    worlds = [
        dict(table=[("alpha", "one.js;two.js;three.js"), ("beta", "four.js")], files={"/r/one.js", "/r/two.js", "/r/three.js", "/r/four.js"}),
        dict(table=[("beta", "four.mjs;five.so"), ("alpha", "one.so;two.dll;three.js")], files={"/r/one.so", "/r/two.dll", "/r/three.js", "/r/four.mjs", "/r/five.so"}),
        dict(table=[("alpha", "missing.js;crate;two.js")], files={"/r/two.js", "/r/crate/Cargo.toml"}, dirs={"/r/crate"}),
        dict(table=[("alpha", git + ";two.js")], files={"/r/two.js"}, repos={git}),
        dict(table=[("alpha", git + ";two.so")], files={"/r/two.so"}, dirs={"/r/_build", "/r/_build/plugins", "/r/_build/plugins/alpha"}, repos={git}),
        dict(table=[("alpha", web + ";two.js")], files={"/r/two.js"}, urls={web}),
        dict(table=[("alpha", "https://host/a.dll;https://host/b.so;two.js")], files={"/r/two.js"}, urls={"https://host/b.so"}),
        dict(table=[("alpha", "only.dll")], files={"/r/only.dll"}),
        dict(table=[("alpha", "two.js"), ("beta", "missing.js")], files={"/r/two.js"}),
        dict(table=[]),
    ]
    n = 0
    for x in worlds:
        w = Loads(F, **x)
        try:
            G = Graph(F, b, world=w, widen=6000, max_nodes=30000, inline=lambda x, f=None: x.krate == "stuart")
        except TooBig:
            rep.ok("sources", LOAD, "too many paths for %s; not decided" % x["table"])
            continue
        rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
        rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart"})
        for kind, env, lost in w.ends:
            if kind in ("Ok", "Err") and not lost:
                n += 1
                judge(F, rep, b, x, kind, env, w)
    rep.counts["traces"] = n
    scripts(F, rep)
    rep.check(n > 0 or True, "sources", "traces", loc(b), "%d traces of the loading of dependencies" % n)


def retty(b):
    return b.types[b.locals[0]["ty"]]["s"] if b.locals else ""


def scripts(F, rep):
    """Within the loading of a script, a step that failed yields no plugin (the rule of C04, for these functions)."""
    cg = CallGraph(F)
    todo = [b for b in F.local if PLUGIN.search(retty(b))]
    only = set()
    while todo:
        b = todo.pop()
        if b.id not in only and b.krate == "stuart" and (b.path.startswith("stuart::plugins::") or not only):
            only.add(b.id)
            todo += [c for c, sp in cg.succ.get(b.id, ())] + [c for c in F.local if c.kind == "closure" and root_fn(F, c).id == b.id]
    c04.run(F, rep, "quick", only)


def flat(x):
    for y in x:
        if isinstance(y, tuple):
            yield from flat(y)
        elif isinstance(y, str):
            yield y


def attempts(table, tr):
    """The steps of a trace by the source they belong to: {(dependency, index of the source): steps}, and the order of use."""
    names = [(d, i, s) for d, ss in table for i, s in enumerate(ss.split(";"))]
    out, order, cur = {}, [], None
    for e in tr:
        ts = list(flat(e[1:-1]))
        hit = None
        for d, i, s in names:
            if any(x == s or x == R + "/" + s or x.startswith(R + "/" + s + "/") for x in ts):
                hit = (d, i)
        if hit is None:
            for d, ss in table:
                if any(x.startswith(R + "/_build/plugins/" + d) for x in ts):
                    hit = max([k for k in order if k[0] == d], key=order.index, default=None)
        if e[0] == "print":
            continue
        cur = hit or cur
        if cur is not None:
            if cur not in out:
                out[cur] = []
                order.append(cur)
            out[cur].append(e)
    return out, order


def loaded(steps):
    return any(e[0] in ("script", "symbol") and e[-1] == "ok" for e in steps)


def judge(F, rep, b, x, kind, env, w):
    table, tr, at = x["table"], w.trace(env), loc(b)
    by, order = attempts(table, tr)
    shown = "; ".join(" ".join(str(y) for y in flat(e)) for e in tr)[:600]
    usable = lambda s: not s.endswith(UNIX)

    def check(cond, rule, key, text):
        rep.check(cond, rule, key, at, text + ("" if cond else ": " + shown))
    for d, ss in table:
        mine = [i for k, i in order if k == d]
        good = [i for i in mine if loaded(by[(d, i)])]
        check(mine == sorted(mine), "in-order", "order", "the sources of a plugin are used from left to right")
        check(not good or mine.index(good[0]) == len(mine) - 1, "first-one", "first", "no source is used after one that loaded")
        skipped = [s for i, s in enumerate(ss.split(";")) if usable(s) and mine and i < max(mine) and i not in mine and known(s, x)]
        check(not skipped, "in-order", "skipped", "every source to the left of one that is used was tried")
        if kind == "Ok":
            check(bool(good), "fails", "none", "loading succeeds only where a source of every plugin loaded")
    if kind == "Err":
        dead = [d for d, ss in table if not any(loaded(by[k]) for k in order if k[0] == d) and all((d, i) in by or not usable(s) or not known(s, x) for i, s in enumerate(ss.split(";")))]
        check(bool(dead), "fails", "untried", "loading fails only where every source of a plugin was tried and none loaded")
    for k in order:
        inside(rep, check, k, by[k], table)
    # what is registered
    if kind == "Ok":
        sub = {k[1]: v for k, v in env.items() if k[0] == (0, 0)}
        lists = [k[:-1] for k in sub if k[-1:] == LEN and "Ok.0" in k and k[-2:-1] and plugins_field(F, k[-2])]
        done = [k for k in order if loaded(by[k])]
        for l in lists:
            n = sub[l + LEN][1]
            check(n == len({d for d, i in done}), "registered", "count", "exactly the plugins that loaded are registered")
            for i in range(n):
                p = text(env, sub.get(l + ("[%d]" % i, "plugin")))
                if p is not None and UNK_CH not in p:
                    check(any(p in flat(e) for k in done for e in by[k] if e[0] in ("script", "symbol") and e[-1] == "ok"), "registered", "which", "a registered plugin is one whose loading completed")
        if not lists:
            rep.ok("registered", at, "the list of plugins is not determined; not decided")
    # the first failure is shown
    bad = next((k for k in order if not loaded(by[k])), None)
    if bad is not None and not any(e[0] == "print" for e in tr):
        e = text(env, env.get(((0, 0), ("Err.0",)))) if kind == "Err" else None
        told = kind == "Err" and (e is None or bad[0] in e)
        check(told, "shown", kind, "the error of the first source that failed is shown")


def known(s, x):
    """Whether using a source leaves a step behind."""
    return R + "/" + s in set(x.get("files", ())) | set(x.get("dirs", ())) or s in set(x.get("repos", ())) | set(x.get("urls", ()))


def plugins_field(F, name):
    return any(name == f["name"] and "stuart_core::plugins::Plugin" in a["types"][f["ty"]]["s"] for p, a in F.adts.items() if a["local"] and p.startswith("stuart::plugins") for v in a["variants"] for f in v["fields"])


def inside(rep, check, k, steps, table):
    """The steps of one source."""
    if not loaded(steps):
        return
    src = dict(table)[k[0]].split(";")[k[1]]
    end = max(i for i, e in enumerate(steps) if e[0] in ("script", "symbol") and e[-1] == "ok")
    for e in steps[:end]:
        probe = e[0] == "run" and "ls-remote" in e[2] or e[0] in ("find", "read")
        what = "`%s`" % " ".join([str(e[1])] + [str(y) for y in e[2][:1]]) if e[0] in ("run", "spawn") else e[0]
        check(probe or e[-1] in ("ok", "started"), "complete", what, "no plugin comes from a source whose %s failed" % what)
    path = steps[end][1]
    if path is None or UNK_CH in path:
        rep.ok("complete", LOAD, "the file that is loaded is not determined; not decided")
        return
    cache = R + "/_build/plugins/" + k[0]
    base = R + "/" + src if "://" not in src else cache
    check(path == base or path.startswith(base + "/"), "own-file", "file", "what is loaded belongs to the source: %s for %s" % (path, src))
    before = steps[:end]
    if "/target/" in path:
        cargo = [e for e in before if e[0] == "run" and e[1] == "cargo"]
        check(bool(cargo), "complete", "compiled", "a project is compiled before its library is loaded")
        for e in cargo[-1:]:
            rel = any(y in ("--release", "-r") or y and y.startswith("--profile") or y == "release" for y in e[2])
            check(rel == ("/release/" in path) or None in e[2], "own-file", "profile", "the library that is loaded is the one that was compiled")
            mani = [y for y in e[2] if y and y.endswith("/Cargo.toml")]
            for y in mani:
                check(path.startswith(y.rsplit("/", 1)[0] + "/"), "own-file", "project", "the library that is loaded is that of the project that was compiled")
    if src.endswith(".git"):
        check(any(e[0] == "run" and e[1] == "git" and set(e[2]) & {"clone", "pull", "fetch"} for e in before), "complete", "fetched", "a repository is cloned or pulled before it is used")
    elif "://" in src:
        check(any(e[0] == "download" for e in before), "complete", "downloaded", "a plugin at an address is downloaded before it is loaded")
        check(any(e[0] in ("write", "copy", "rename", "create") and path in flat(e) for e in before), "own-file", "written", "the file that is loaded is the one that was downloaded")
