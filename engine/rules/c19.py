"""Dominance and provenance on the inlined graph of `stuart new`: every call that changes the filesystem, and `git init`,
must be reached only over the success edge of the creation of the directory named on the command line, which must be the
non-recursive creation that fails for an existing directory (or be dominated by a check that it does not exist); the
failure edge must not reach a successful exit. User-controlled strings (the name, Git's answers) may only enter the text
written to stuart.toml after having been turned into a TOML value (types of the formatted operands)."""
from .common import *

TRANSFORM = re.compile(r"(trim\w*|to_(ascii_)?(lower|upper)case|replace\w*|split\w*|truncate|escape_\w+|rsplit\w*|lines|chars|to_title\w*)$")


def run(F, rep, tier):
    b = F.get("stuart::new::new")
    if b is None:
        rep.bad("anchor", "new", "stuart/src/new.rs", "stuart::new::new not found")
        return
    cg = CallGraph(F)
    direct, mut = mutators(F, cg)
    a = An(F, b)
    rep.saw_graph(a)
    isname = lambda t: t is not None and uses(t, lambda x: x[0] == "call" and last(x[1]) in ("value_of", "get_one", "value_of_os") and x[2][1:] == (("const", "name"),)) and not uses(t, lambda x: x[0] == "call" and JOIN.search(x[1]) and x[2][1][0] == "const")

    def is_root(t):
        ps = pathparts(t)
        return bool(ps) and all((isname(base) and not cs) or (base is None and cs and cs[0] in (".", "./") and len(cs) == 2 and isinstance(cs[1], tuple) and isname(cs[1]))
                                or (base is not None and uses(base, lambda x: x[0] == "call" and last(x[1]) == "current_dir") and len(cs) == 1 and isinstance(cs[0], tuple) and isname(cs[0])) for base, cs in ps)
    roots, rest = [], []
    for n, p in mutation_events(a, mut):
        idx = 1 if "DirBuilder" in p else 0
        if n.call[2] is None and last(p) in ("create_dir", "create_dir_all", "create") and "File" not in p and is_root(a.arg(n, idx)):
            roots.append((n, p))
        else:
            rest.append((n, p))
    for n, p in a.events(r"std::process::Command::(output|status|spawn)$"):
        if uses(a.arg(n, 0), lambda t: t == ("const", "init")):
            rest.append((n, "git init"))
    rep.check(bool(roots), "creates-the-directory", "new", loc(b), "`new` creates the directory it was given")
    terms = [a.result(n) for n, p in roots]
    created = lambda f: has_variant(f, "Ok") and any(contains(f[1], t) for t in terms)
    for n, p in roots:
        absent = lambda f: f[0] == "is" and not f[3] and f[1][0] == "call" and last(f[1][1]) in ("exists", "try_exists") and is_root(f[1][2][0])
        rec = p.endswith("create_dir_all") or ("DirBuilder" in p and uses(a.arg(n, 0), lambda t: t[0] == "call" and last(t[1]) == "recursive" and t[2][1] == ("const", True)))
        rep.check(not rec or a.every_path_has(n, absent), "fails-if-it-exists", "new/" + last(p), a.where(n), "the creation of the directory fails if it exists")
        t = a.result(n)
        fail = a.edges(lambda f: has_variant(f, "Err") and f[1] == t)
        ok = {e.id for e in a.exits("Ok")}
        path = a.path_to([m for _, m, _ in fail], lambda x: x.id in ok)
        rep.check(path is None, "failure-is-final", "new", a.where(n), "if the directory cannot be created `new` fails", a.path_lines(path))
    for n, p in rest:
        path = None
        ok = a.every_path_has(n, created)
        if not ok:
            path = a.path_to([a.g.entry], lambda x: x is n, stop_edge=lambda x, y, l: any(created(f) for f in a.atoms(x, y, l)))
        rep.check(ok, "only-after-creation", "%s/%s" % (a.site(n), last(p)), a.where(n), "%s happens only after the directory was created" % last(p), a.path_lines(path))
    manifest(F, rep, a, isname)


def manifest(F, rep, a, isname):
    user = lambda t: uses(t, lambda x: x[0] == "call" and (last(x[1]) in ("value_of", "get_one") or x[1].startswith("std::process::Command::output")))
    writes = [(n, p) for n, p in a.events(r"std::fs::write$|Write::write(_all|_fmt)?$") if any(cs and cs[-1] == "stuart.toml" for b, cs in pathparts(a.arg(n, 0)))]
    rep.check(bool(writes), "manifest-written", "new", loc(a.body), "`new` writes stuart.toml")
    for n, p in writes:
        c = a.arg(n, 1)
        # formats that become part of the text, without entering TOML values
        def raw(t, out):
            if isinstance(t, (tuple, frozenset)) and not (isinstance(t, tuple) and t and isinstance(t[0], str) and tomlish(t)):
                if isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and "fmt::rt::Argument::new_" in t[1]:
                    for x in alts(t[2][0]):
                        if user(x) and not tomlish(x) and not uses(x, lambda y: y[0] == "call" and "fmt::rt::Argument" in y[1]):
                            out.add(x)
                for x in t:
                    raw(x, out)
            return out
        bad = raw(c, set())
        for t in bad:
            rep.bad("strings-are-quoted", "new/" + show(t)[-60:], a.where(n), "user-controlled text is put into stuart.toml without being turned into a TOML value")
        if not bad:
            rep.ok("strings-are-quoted", a.where(n), "user-controlled text is a TOML value when it is formatted")
        name = [x for x in walk(c) if x[0] == "call" and last(x[1]) in ("value_of", "get_one")]
        rep.check(bool(name), "exact-name", "new", a.where(n), "the manifest carries the name given")
        for x in walk(c):
            if x[0] == "call" and TRANSFORM.search(x[1]) and uses(x[2][0], lambda y: y[0] == "call" and last(y[1]) == "value_of"):
                rep.bad("exact-name", "new/" + last(x[1]), a.where(n), "the name is changed by %s before it is written" % last(x[1]))


def tomlish(t):
    return (t[0] == "call" and (t[1] == "core::convert::From::from" or "toml::value::Value as core::convert::From" in t[1] or t[1].startswith("toml::"))) or (t[0] == "agg" and t[1].startswith("toml::"))
