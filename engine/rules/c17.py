"""Field-by-field provenance of the configuration. On the inlined graph of `From<RawConfig> for Config`, for every exit,
the value of each setting must be the option of that name in the manifest where it is present, and the documented default
exactly where the settings section or the option is absent (branch facts on every path to that exit); name and author must
come from the site section. The names under which the options are read from TOML are taken from the generated
deserialisers (string compared -> field index -> field name). The builder created by StuartContext::init must carry that
configuration, produced from the manifest text; Stuart::with_config must store its argument. The conversion is also
evaluated abstractly on 35 manifests (every combination of the options present, absent, true and false), and for every class of file
the two settings that decide what is saved are compared with what is documented."""
import itertools
from .common import *
from graph import Graph, TooBig
from rep import Report
from world import Lists, g

DEFAULTS = {"strip_extensions": True, "save_data_files": False, "save_metadata": False}
RAW = "stuart::config::"


def toml_names(F, rep, adt):
    """{name in the manifest: name of the struct field} read from the derived visitor, or None."""
    a = F.adts.get(adt)
    b = None
    for x in F.local:
        if x.path.startswith("<<%s as serde::de::Deserialize>::deserialize::__FieldVisitor" % adt) and x.path.endswith(">::visit_str"):
            b = x
    if b is None or a is None:
        return None
    an = An(F, b)
    rep.saw_graph(an)
    fields = [f["name"] for f in a["variants"][0]["fields"]]
    # serde numbers the fields that take part in deserialisation; all of them unless `skip` is used
    fadt = F.adts.get("<%s as serde::de::Deserialize>::deserialize::__Field" % adt)
    n = len([v for v in fadt["variants"] if v["name"].startswith("__field")]) if fadt else len(fields)
    if n != len(fields):
        return None
    out = {}
    for e in an.exits():
        names = [f[2][1] for f in an.facts_at(e) if f[0] == "Eq" and f[3] and f[2] and f[2][0] == "const" and isinstance(f[2][1], str)]
        for t in alts(ret(an, e)):
            m = re.search(r"__field(\d+)$", t[2][0][1][1]) if t[0] == "agg" and t[2] and t[2][0][1][0] == "agg" else None
            if m and int(m.group(1)) < len(fields):
                if not names:
                    # several spellings (aliases) share the exit: read the edges that lead here
                    names = [f[2][1] for (x, y, l) in an.edges(lambda f: f[0] == "Eq" and f[3] and f[2][0] == "const") for f in an.atoms(x, y, l)
                             if f[0] == "Eq" and f[3] and an.path_to([y], lambda z: z is e, stop_edge=lambda p, q, l2: any(g[0] == "Eq" and g[3] for g in an.atoms(p, q, l2)))]
                for nm in names:
                    out[nm] = fields[int(m.group(1))]
    # the tail of the last comparison may be an else exit
    return out


def run(F, rep, tier):
    b = next((x for x in F.local if x.path.startswith("<stuart_core::config::Config as core::convert::From<") and x.path.endswith(">::from")), None)
    if b is None:
        b = next((x for x in F.local if x.path.startswith("<") and "as core::convert::Into<stuart_core::config::Config>" in x.path), None)
    names = {}
    for adt in ("RawConfig", "Site", "Settings"):
        n = toml_names(F, rep, RAW + adt)
        if n is None:
            rep.ok("toml-names", "stuart/src/config/mod.rs", "deserialiser of %s not read" % adt)
        names[adt] = n
    want = {"RawConfig": ("site", "settings", "dependencies"), "Site": ("name", "author"), "Settings": tuple(DEFAULTS)}
    for adt, ns in want.items():
        if names[adt]:
            for n in ns:
                rep.check(n in names[adt], "toml-names", "%s/%s" % (adt, n), "stuart/src/config/mod.rs", "`%s` is read from the manifest" % n)
    if b is None:
        rep.ok("settings", "stuart/src/config/mod.rs", "no conversion from the raw configuration found")
    else:
        a = An(F, b)
        rep.saw_graph(a)
        conversion(F, rep, a, names)
        evaluated(F, rep, b, names)
    effects_of_settings(F, rep)
    # the library's own defaults
    d = F.get("<stuart_core::config::Config as core::default::Default>::default")
    if d is not None:
        a = An(F, d)
        rep.saw_graph(a)
        for e in a.exits():
            for o, v in DEFAULTS.items():
                vs = set(alts(retf(a, e, o)))
                rep.check(vs == {("const", v)}, "default", "Config::default/" + o, loc(d), "the default of %s is %s" % (o, v))
    wc = F.get("stuart_core::Stuart::with_config")
    if wc is not None:
        a = An(F, wc)
        rep.saw_graph(a)
        for e in a.exits():
            t = ("param", 2, wc.locals[2].get("name") or "_2")
            c = retf(a, e, "config")
            ok = c == t or all(field(c, f["name"]) == field(t, f["name"]) for f in F.adts["stuart_core::config::Config"]["variants"][0]["fields"])
            rep.check(ok, "with-config", "with_config", loc(wc), "with_config stores the configuration it is given: " + show(c)[:120])
    init = F.get(INIT)
    if init is not None:
        a = An(F, init, inline=lambda x, f: not x.path.startswith("stuart::plugins") and not x.path.startswith("stuart::scripts"))
        rep.saw_graph(a)
        for e in a.exits("Ok"):
            for o in list(DEFAULTS) + ["name", "author"]:
                for t in alts(retf(a, e, "Ok.0", "stuart", "config", o)):
                    ok = t == ("const", DEFAULTS.get(o)) or uses(t, lambda x: x[0] == "call" and "toml" in x[1] and x[1].endswith(("from_str", "from_slice"))) and t[0] == "field"
                    rep.check(ok, "from-the-manifest", "init/" + o, loc(init), "the builder's %s comes from the manifest: %s" % (o, show(t)[-80:]))


def chain(t):
    """Field names of a projection chain, outermost last, with Option payloads skipped; and its base."""
    out = []
    while t[0] == "field":
        if not re.match(r"(Some|Ok)\.\d+$", t[2]):
            out.append(t[2])
        t = t[1]
    return t, out[::-1]


def conversion(F, rep, a, names):
    b = a.body
    raw = ("param", 1, b.locals[1].get("name") or "_1")
    inv = {adt: {n: f for n, f in (names[adt] or {}).items()} for adt in names}
    sett = inv["RawConfig"].get("settings", "settings")
    site = inv["RawConfig"].get("site", "site")
    for e in a.exits():
        facts = a.facts_at(e)
        for o, dv in DEFAULTS.items():
            f = inv["Settings"].get(o, o)
            v = retf(a, e, o)
            for t in alts(v):
                if t[0] == "const":
                    rep.check(t[1] is dv, "default", o, loc(b), "without a value in the manifest %s is %s" % (o, dv))
                    # the default is used only where the option is absent
                    absent = lambda x: x[0] == "variant" and has_variant(x, "None") and chain(x[1])[0] == raw and chain(x[1])[1] in ([sett], [sett, f])
                    if len(alts(v)) == 1:
                        present = lambda x: x[0] == "variant" and has_variant(x, "Some") and chain(x[1]) == (raw, [sett, f])
                        ok = a.every_path_has(e, absent) or not any(present(x) for x in facts)
                        rep.check(ok, "default-only-when-absent", o, loc(b), "the default of %s is used only where the option is absent" % o)
                        nonef = [x for x in facts if x[0] == "variant" and has_variant(x, "None") and chain(x[1])[0] == raw]
                        other = [x for x in nonef if chain(x[1])[1] not in ([sett], [sett, f])]
                        if not ok and other:
                            rep.bad("independent", o, loc(b), "%s depends on another option" % o)
                elif t[0] == "field" and chain(t)[0] == raw:
                    rep.check(chain(t)[1] == [sett, f], "own-option", o, loc(b), "%s is set by `%s`" % (o, ".".join(chain(t)[1])))
                elif t[0] in ("un", "bin"):
                    rep.bad("own-option", o, loc(b), "%s is not the option itself: %s" % (o, show(t)[:80]))
                else:
                    rep.ok("own-option", loc(b), "%s: %s not decided" % (o, show(t)[:80]))
        for o in ("name", "author"):
            f = inv["Site"].get(o, o)
            for t in alts(retf(a, e, o)):
                if t[0] == "field" and chain(t)[0] == raw:
                    rep.check(chain(t)[1] == [site, f], "site", o, loc(b), "the %s of the site is `%s`" % (o, ".".join(chain(t)[1])))
                elif t[0] == "const":
                    rep.bad("site", o, loc(b), "the %s of the site is a constant" % o)
                else:
                    rep.ok("site", loc(b), "%s not decided: %s" % (o, show(t)[:80]))
    for o in DEFAULTS:
        f = inv["Settings"].get(o, o)
        some = any(chain(t) == (raw, [sett, f]) for e in a.exits() for t in alts(retf(a, e, o)) if t[0] == "field")
        opaque = any(t[0] not in ("const", "field") for e in a.exits() for t in alts(retf(a, e, o)))
        rep.check(some or opaque, "own-option", o + "/used", loc(b), "the manifest's %s reaches the configuration" % o)
    # presence of the option decides: where `settings.option` is known to be present its value is used
    for e in a.exits():
        for o in DEFAULTS:
            f = inv["Settings"].get(o, o)
            if any(x[0] == "variant" and has_variant(x, "Some") and chain(x[1]) == (raw, [sett, f]) for x in a.facts_at(e)):
                for t in alts(retf(a, e, o)):
                    rep.check(t[0] != "const", "present-is-used", o, loc(b), "where %s is given its value is used" % o)


class Given(Lists):
    """The world of the conversion of one manifest, already read, to the configuration."""

    def __init__(self, F, values):
        super().__init__(F)
        self.values, self.ends = values, []

    def start(self, G, env):
        b = G.root_body
        base = ("P", 1) if b.ty(1)["k"] in ("ref", "ptr") else (0, 1)
        env.update({(base, k): v for k, v in self.values.items()})

    def exit(self, G, n, env):
        out = {}
        for (root, proj), v in env.items():
            if root == (0, 0) and proj and isinstance(proj[0], str):
                out[proj] = v
        self.ends.append((out, bool(g(env, "lost"))))


def evaluated(F, rep, b, names):
    """The configuration that each of a set of manifests is converted to, computed."""
    inv = {adt: {n: f for n, f in (names[adt] or {}).items()} for adt in names}
    site, sett = inv["RawConfig"].get("site", "site"), inv["RawConfig"].get("settings", "settings")
    T = ("c", "s:Me")
    opts = list(DEFAULTS)
    cases = [(nm, au, None) for nm in ("Site", "") for au in (None, "Me", "a@b.c", "")]
    cases += [("Site", None, c) for c in itertools.product((None, True, False), repeat=len(opts))]
    und = 0
    for nm, au, st in cases:
        v = {(site, inv["Site"].get("name", "name")): ("c", "s:" + nm)}
        k = (site, inv["Site"].get("author", "author"))
        v[k] = ("v", "None" if au is None else "Some")
        if au is not None:
            v[k + ("Some.0",)] = ("c", "s:" + au)
        v[(sett,)] = ("v", "None" if st is None else "Some")
        for o, x in zip(opts, st or ()):
            k = (sett, "Some.0", inv["Settings"].get(o, o))
            v[k] = ("v", "None" if x is None else "Some")
            if x is not None:
                v[k + ("Some.0",)] = ("c", x)
        w = Given(F, v)
        try:
            Graph(F, b, world=w, widen=2000, max_nodes=5000, inline=lambda x, f: x.krate in ("stuart", "stuart_core"))
        except TooBig:
            und += 1
            continue
        told = "a manifest with name %r, %s and %s" % (nm, "no author" if au is None else "author %r" % au,
                                                     "no settings" if st is None else "the settings " + (", ".join("%s = %s" % (o, str(x).lower()) for o, x in zip(opts, st) if x is not None) or "(none)"))
        want = {("name",): ("c", "s:" + nm), ("author",): ("v", "None" if au is None else "Some")}
        if au is not None:
            want[("author", "Some.0")] = ("c", "s:" + au)
        for o, x in zip(opts, st or (None,) * len(opts)):
            want[(o,)] = ("c", DEFAULTS[o] if x is None else x)
        for f, x in want.items():
            got = {out.get(f) for out, lost in w.ends}
            if not got or None in got or any(y[0] not in ("c", "v") for y in got) or any(lost for o, lost in w.ends):
                und += 1
                continue
            rep.check(got == {x}, "evaluated", ".".join(f), loc(b), "%s: %s is %s" % (told, f[0], " or ".join(sorted(str(y[1]) for y in got))))
    rep.ok("evaluated", loc(b), "%d manifests converted, %d points not decided" % (len(cases), und))


def effects_of_settings(F, rep):
    """Whether a file is saved, and as what, depends on each setting as documented: files that are saved rightly under
    some settings must be so under all of them."""
    from rules import c15
    save = F.get("stuart_core::fs::Node::save")
    if save is None:
        return
    r = Report("C15")
    top = An(F, save)
    for rb in list({n.call[2].id: n.call[2] for n, p in top.events() if n.call[2] is not None}.values()) or [save]:
        c15.writer(F, r, rb)
    seen = {}
    for o in r.obligations:
        m = re.match(r"(.*), (strip_extensions (?:on|off), save_data_files (?:on|off)) is (.*)", o["detail"])
        if m:
            seen.setdefault(m.group(1), {}).setdefault(m.group(2), []).append((o["ok"], o["where"], m.group(3)))
    for name, l in sorted(seen.items()):
        wrong = {s: x for s, xs in l.items() for x in xs if not x[0]}
        right = {s for s in l if s not in wrong}
        if not wrong or not right:
            rep.ok("file-settings", loc(save), "%s: the settings decide what is saved as documented" % name)
        for s, (_, where, how) in wrong.items():
            if right:
                rep.bad("file-settings", "%s/%s" % (name, s), where, "with %s, `%s` is not what the settings say: expected %s; with %s it is right" % (s, name, how, " or ".join(sorted(right))))
