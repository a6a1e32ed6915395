"""Path provenance of every filesystem change. The call sites of functions that change the filesystem (table in
engine/effects.py) are enumerated over both crates; each must lie on the exploded graph of one of the four operations that
are allowed to change anything (StuartContext::build, clean, new, loading plugins), and there the path argument, traced
backwards to its origin, must be one of the places the property names: as a whole for a deletion, at or below it for a
creation or write. Deletions by `clean` must in addition be dominated by the check for stuart.toml."""
from .common import *


def run(F, rep, tier):
    cg = CallGraph(F)
    direct, mut = mutators(F, cg)
    sites = {}
    for b in F.local:
        for (p, sp, called, fn) in cg.ext[b.id]:
            if effects.FS_MUT.search(p) and not p.endswith(("OpenOptions::new", "File::options", "DirBuilder::new")):
                sites[(root_fn(F, b).path, p)] = sp
    covered = set()
    for path, judge in (("stuart::build::StuartContext::build", j_build), ("stuart::clean", j_clean), ("stuart::new::new", j_new), ("stuart::plugins::load", j_plugins)):
        b = F.get(path)
        if b is None:
            continue
        a = build_an(F) if path == BUILD else An(F, b)
        rep.saw_graph(a)
        if judge is j_plugins:
            git_targets(F, a, rep)
        for n, p in mutation_events(a, mut):
            f = n.frame
            covered.add((root_fn(F, f.body).path, p))
            if n.call[2] is not None:        # a recursive workspace call: its path arguments must be allowed places again
                for i, x in enumerate(n.term["args"]):
                    t = a.arg(n, i)
                    ty = arg_ty(n, i)
                    if "Path" in ty or "AsRef" in ty or t[0] == "call" and JOIN.search(t[1]):
                        for base, comps in pathparts(t):
                            judge(F, a, rep, n, "below", base, comps)
                continue
            op = "remove" if "remove" in last(p) else "below"
            idx = 1 if last(p) in ("open", "create") and "OpenOptions" in p or "DirBuilder" in p else 0
            ts = [a.arg(n, idx)] + ([a.arg(n, 1)] if last(p) in ("rename", "copy", "hard_link", "symlink", "soft_link") else [])
            if last(p) == "rename":
                op = "remove"
            for t in ts:
                for base, comps in pathparts(t, strict=op == "remove" and last(p) == "remove_dir_all"):
                    for cs in refine(a, n, comps):
                        judge(F, a, rep, n, op, base, cs)
    for (fn, p), sp in sorted(sites.items()):
        rep.check((fn, p) in covered, "known-operation", "%s/%s" % (fn, last(p)), "%s:%d (in %s)" % (sp[0], sp[1], fn),
                  "%s in %s belongs to build, clean, new or plugin loading" % (p, fn))


    output_guard(F, rep)


def output_guard(F, rep):
    """The output directory, which a build deletes, has been compared with every directory of sources."""
    b = F.get(INIT)
    if b is None:
        return
    a = An(F, b, inline=lambda x, f: not x.path.startswith("stuart::plugins"))
    rep.saw_graph(a)
    out = next((("param", i, b.locals[i].get("name")) for i in range(1, b.argc + 1) if b.locals[i].get("name") == "output"), ("param", 2, b.locals[2].get("name") or "_2"))
    consts = {t[1] for n, p in a.events() for x in a.args(n) for t in walk(x) if t[0] == "const" and isinstance(t[1], str)}
    for e in a.exits("Ok"):
        ok = a.every_path_has(e, lambda f: f[0] in ("is", "Eq", "variant") and any(isinstance(x, tuple) and x and isinstance(x[0], str) and contains(x, out) for x in (f[1], f[2])))
        rep.check(ok, "output-apart-from-sources", "init", loc(b), "a context is only created after the output directory was compared with the sources")
        for s in ("content", "static", "scripts", "stuart.toml"):
            rep.check(s in consts, "output-apart-from-sources", "init/" + s, loc(b), "the sources compared include `%s`" % s)


def arg_ty(n, i):
    a = n.term["args"][i]
    if a["k"] in ("copy", "move") and not a["p"][1]:
        return n.frame.body.ty(a["p"][0])["s"]
    return ""


def git_targets(F, a, rep):
    """Directories that external commands are told to write to."""
    for n, p in a.events(r"std::process::Command::args?$"):
        t = a.arg(n, 1)
        els = [v for f, v in t[2]] if t[0] == "agg" and t[1] == "array" else [t]
        words = [e[1] for e in els if e[0] == "const"]
        dest = []
        if "clone" in words:
            dest = [e for e in els if e[0] != "const"][1:]
        elif "-C" in words:
            dest = [e for e in els if e[0] != "const"]
        for d in dest:
            for base, comps in pathparts(d):
                j_plugins(F, a, rep, n, "below", base, comps)


def say(base, comps):
    return "/".join([show(base)[:60] if base is not None else ""] + [c if isinstance(c, str) else show(c)[:60] if c[0] != "fmt" else "fmt" + litprefix(c) for c in comps])


def verdict(rep, a, n, op, ok, base, comps, what):
    rep.check(ok, "designated-place", "%s/%s/%s" % (a.site(n), last(n.call[0]), say(base, comps) if not ok else ""), a.where(n),
              "%s of %s %s" % ("deletion" if op == "remove" else "write", say(base, comps), "is inside " + what if ok else "is not " + what))


def dots(comps):
    return any(isinstance(c, str) and (".." in c.split("/") or c.startswith("/")) for c in comps)


def j_build(F, a, rep, n, op, base, comps):
    pd = self_field(a, "project_dir")
    out = self_field(a, "output")
    ok = False
    if base == pd and comps and not dots(comps):
        c = comps[0]
        if op == "remove":
            ok = len(comps) == 1 and (c == "temp" or c == out) and (last(n.call[0]) == "remove_dir_all")
        else:
            ok = c == out or c == "temp" or (c == "metadata.json" and len(comps) == 1)
    verdict(rep, a, n, op, ok, base, comps, "the output directory, `temp` or `metadata.json` of the project")


def j_clean(F, a, rep, n, op, base, comps):
    ok = base is None and len(comps) == 1 and comps[0].rstrip("/") in ("dist", "_build", "metadata.json", "./dist", "./_build", "./metadata.json")
    verdict(rep, a, n, op, ok, base, comps, "`dist`, `_build` or `metadata.json`")

    def toml(f):
        return f[0] == "is" and f[3] and f[1][0] == "call" and last(f[1][1]) in ("exists", "is_file", "try_exists") and any(
            b is None and c == ("stuart.toml",) for b, c in pathparts(f[1][2][0])) or (
            f[0] == "variant" and has_variant(f, "Ok") and f[1][0] == "call" and f[1][2] and any(c[-1:] == ("stuart.toml",) for b, c in pathparts(f[1][2][0])))
    rep.check(a.every_path_has(n, toml), "only-in-a-project", a.site(n) + "/" + last(n.call[0]), a.where(n), "deletion by clean happens only where stuart.toml exists")


def j_new(F, a, rep, n, op, base, comps):
    name = lambda t: t is not None and t[0] == "field" and t[1][0] == "call" and last(t[1][1]) in ("value_of", "get_one", "value_of_os") and t[1][2][1:] == (("const", "name"),)
    cwd = lambda t: t is not None and uses(t, lambda x: x[0] == "call" and last(x[1]) == "current_dir")
    ok = name(base) or (cwd(base) and comps and isinstance(comps[0], tuple) and name(comps[0])) or (base is None and len(comps) > 1 and comps[0] in (".", "./") and name(comps[1]))
    if op == "remove":
        ok = ok and len([c for c in comps if not (isinstance(c, tuple) and name(c))]) == 0
    verdict(rep, a, n, op, ok and not dots(comps), base, comps, "the directory named on the command line")


def j_plugins(F, a, rep, n, op, base, comps):
    root = ("param", 2, a.body.locals[2].get("name") or "_2")
    lit = "/".join(litprefix(c) for c in comps)
    ok = base == root and (lit + "/").startswith("_build/plugins/") and not dots(comps)
    if op == "remove":
        ok = ok and not lit.rstrip("/") == "_build/plugins" or ok and len(comps) > 1
    verdict(rep, a, n, op, ok, base, comps, "`_build/plugins` of the project")
    # a component that comes from the manifest has been inspected
    for i, c in enumerate(comps):
        parts = [x for x in c[1:] if isinstance(x, tuple)] if isinstance(c, tuple) and c and c[0] == "fmt" else []
        for t in parts:
            def seen(f):
                return any(isinstance(x, tuple) and x and uses(x, lambda y: y[0] == "call" and last(y[1]) in (
                    "file_name", "components", "contains", "all", "any", "is_alphanumeric", "starts_with") and contains(y, t)) for x in (f[1], f[2]) if isinstance(x, tuple) and x and isinstance(x[0], str))
            rep.check(a.every_path_has(n, seen), "name-inspected", a.site(n) + "/" + last(n.call[0]), a.where(n), "the plugin name %s is checked before it becomes part of a path" % show(t)[-60:])
