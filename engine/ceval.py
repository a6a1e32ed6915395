"""Conditional constant propagation over the exploded graph: terms are evaluated under an environment that fixes the value
of some terms (a class of inputs), and edges whose branch facts evaluate to false are not taken. Nothing is executed: only
the string and option functions below are interpreted, everything else is unknown."""
import re
from ana import parse_fmt
from terms import walk, alts, Terms


class _Unk:
    def __repr__(self):
        return "?"


UNK = _Unk()


class Tag:
    """An enum value: variant name and payload values."""

    def __init__(self, name, *vals):
        self.name, self.vals = name, vals

    def __eq__(self, o):
        return isinstance(o, Tag) and self.name == o.name and self.vals == o.vals

    def __hash__(self):
        return hash((self.name, self.vals))

    def __repr__(self):
        return "%s%s" % (self.name, list(self.vals) if self.vals else "")


NONE = Tag("None")


def some(v):
    return NONE if v is None else Tag("Some", v)


def ext(s):
    n = s.rstrip("/").rsplit("/", 1)[-1]
    i = n.rfind(".")
    return n[i + 1:] if i > 0 else None


def stem(s):
    n = s.rstrip("/").rsplit("/", 1)[-1]
    i = n.rfind(".")
    return n[:i] if i > 0 else n


def rsplit1(s, d):
    i = s.rfind(d)
    return None if i < 0 else (s[:i], s[i + len(d):])


def split1(s, d):
    i = s.find(d)
    return None if i < 0 else (s[:i], s[i + len(d):])


STR = {
    "ends_with": lambda s, x: s.endswith(tuple(x) if isinstance(x, (list, tuple)) else x),
    "starts_with": lambda s, x: s.startswith(tuple(x) if isinstance(x, (list, tuple)) else x),
    "strip_suffix": lambda s, x: some(s[:len(s) - len(x)] if s.endswith(x) else None),
    "strip_prefix": lambda s, x: some(s[len(x):] if s.startswith(x) else None),
    "trim_end_matches": lambda s, x: _tem(s, x),
    "trim_start_matches": lambda s, x: _tsm(s, x),
    "trim": lambda s: s.strip(), "trim_end": lambda s: s.rstrip(), "trim_start": lambda s: s.lstrip(),
    "to_lowercase": lambda s: s.lower(), "to_ascii_lowercase": lambda s: s.lower(), "to_uppercase": lambda s: s.upper(), "to_ascii_uppercase": lambda s: s.upper(),
    "len": lambda s: len(s.encode()) if isinstance(s, str) else len(s), "is_empty": lambda s: len(s) == 0,
    "rsplit_once": lambda s, d: some(rsplit1(s, d)), "split_once": lambda s, d: some(split1(s, d)),
    "eq_ignore_ascii_case": lambda s, x: s.lower() == x.lower(),
    "replace": lambda s, a, b: s.replace(a, b),
    "extension": lambda s: some(ext(s)), "file_stem": lambda s: some(stem(s)),
    "file_name": lambda s: some(s.rstrip("/").rsplit("/", 1)[-1]),
    "to_string_lossy": lambda s: s, "to_str": lambda s: Tag("Some", s), "as_bytes": lambda s: s, "into_owned": lambda s: s, "to_string": lambda s: s,
    "as_os_str": lambda s: s, "as_encoded_bytes": lambda s: s, "must_use": lambda s: s, "to_vec": lambda s: s, "as_ref": lambda s: s,
    "into_string": lambda s: s, "display": lambda s: s, "as_str": lambda s: s,
    "find": lambda s, d: some(s.find(d) if s.find(d) >= 0 else None), "rfind": lambda s, d: some(s.rfind(d) if s.rfind(d) >= 0 else None),
}


def _tem(s, x):
    while x and s.endswith(x):
        s = s[:-len(x)]
    return s


def _tsm(s, x):
    while x and s.startswith(x):
        s = s[len(x):]
    return s


def ev(t, env, d=0):
    if t in env:
        return env[t]
    if d > 60:
        return UNK
    k = t[0]
    if k == "const":
        return t[1]
    if k == "bytes":
        try:
            return bytes(t[1]).decode()
        except Exception:
            return UNK
    if k == "phi":
        vs = [ev(x, env, d + 1) for x in t[1]]
        return vs[0] if vs and all(v is not UNK and v == vs[0] and type(v) is type(vs[0]) for v in vs) else UNK
    if k == "agg":
        n = t[1].rsplit("::", 1)[-1]
        vs = [ev(v, env, d + 1) for f, v in t[2]]
        if t[1] in ("array", "tuple"):
            return tuple(vs) if UNK not in vs else UNK
        return Tag(n, *vs)
    if k == "field":
        b = ev(t[1], env, d + 1)
        if isinstance(b, Tag):
            m = re.match(r"(\w+)\.(\d+)$", t[2])
            if m and m.group(1) == b.name and int(m.group(2)) < len(b.vals):
                return b.vals[int(m.group(2))]
        if isinstance(b, tuple) and t[2].isdigit() and int(t[2]) < len(b):
            return b[int(t[2])]
        return UNK
    if k == "un":
        v = ev(t[2], env, d + 1)
        return (not v) if t[1] == "Not" and isinstance(v, bool) else UNK
    if k == "bin":
        a, b = ev(t[2], env, d + 1), ev(t[3], env, d + 1)
        return binop(t[1], a, b)
    if k == "call":
        f = parse_fmt(t) if t[1].endswith(("fmt::format", "must_use")) else None
        if f is not None:
            out = ""
            for p in f:
                v = p if isinstance(p, str) else ev(p, env, d + 1)
                if not isinstance(v, (str, int)) or isinstance(v, bool):
                    return UNK
                out += str(v)
            return out
        n = re.sub(r"<[^<>]*>$", "", t[1]).rsplit("::", 1)[-1].rstrip(">")
        vs = [ev(x, env, d + 1) for x in t[2]]
        if n == "contains" and len(vs) == 2 and isinstance(vs[0], tuple) and vs[1] is not UNK:
            return vs[1] in vs[0]
        if n == "contains" and len(vs) == 2 and isinstance(vs[0], str) and isinstance(vs[1], str):
            return vs[1] in vs[0]
        if n == "eq" and len(vs) == 2:
            return binop("Eq", *vs)
        if n == "ne" and len(vs) == 2:
            return binop("Ne", *vs)
        if n in ("is_some", "is_none", "is_ok", "is_err") and vs and isinstance(vs[0], Tag):
            return vs[0].name == {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[n]
        if n in STR and vs and isinstance(vs[0], str) and not any(v is UNK for v in vs):
            try:
                return STR[n](*vs)
            except Exception:
                return UNK
        return UNK
    return UNK


def binop(op, a, b):
    if isinstance(a, Tag) and isinstance(b, Tag) and op in ("Eq", "Ne") and a.name != b.name:
        return op == "Ne"
    if a is UNK or b is UNK or has_unk(a) or has_unk(b):
        return UNK
    try:
        if op == "Eq":
            return a == b
        if op == "Ne":
            return a != b
        if op in ("Lt", "Le", "Gt", "Ge") and type(a) is type(b):
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, bool) and isinstance(b, bool):
            return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
        if op.startswith("Add") and isinstance(a, int) and isinstance(b, int):
            return a + b
        if op.startswith("Sub") and isinstance(a, int) and isinstance(b, int):
            return a - b
    except TypeError:
        pass
    return UNK


def has_unk(v):
    if v is UNK:
        return True
    if isinstance(v, Tag):
        return any(has_unk(x) for x in v.vals)
    if isinstance(v, tuple):
        return any(has_unk(x) for x in v)
    return False


def truth(f, env):
    """Truth of a branch fact: True, False or None."""
    op, a, b, tr = f
    if op == "variant":
        v = ev(a, env)
        return None if not isinstance(v, Tag) else (v.name == b) == tr
    if op == "is":
        v = ev(a, env)
        return None if not isinstance(v, bool) else v == tr
    v = binop(op, ev(a, env), ev(b, env))
    return None if not isinstance(v, bool) else v == tr


def relevant(f, env):
    """An undecided fact that depends on the fixed terms."""
    keys = set(env)
    for x in f[1:3]:
        if isinstance(x, tuple):
            ts = set(walk(x))
            if ts & keys and not any(y[0] == "call" and re.search(r"std::(fs|io|path::Path::(exists|is_|metadata))|io::error", y[1]) for y in ts):
                return True
    return False


class Walk:
    """Edges taken under an environment. edge(n, m, lab) -> 'yes', 'no' or 'maybe' (undecided and relevant)."""

    def __init__(self, an, env, also=None):
        self.an, self.env, self.also = an, env, also
        self.memo = {}

    def edge(self, n, m, lab):
        k = (n.id, m.id, lab)
        r = self.memo.get(k)
        if r is None:
            r = "yes"
            for f in (self.an.atoms(n, m, lab) if lab and lab[0] in ("variant", "notvariants", "val", "notvals") else []):
                t = self.also(f) if self.also else None
                if t is None:
                    t = truth(f, self.env)
                if t is False:
                    r = "no"
                    break
                if t is None and relevant(f, self.env):
                    r = "maybe"
            self.memo[k] = r
        return r

    def certain(self, n, m, lab):
        """stop_edge for certain paths."""
        return self.edge(n, m, lab) != "yes"

    def possible(self, n, m, lab):
        return self.edge(n, m, lab) == "no"


class Case:
    """The part of the graph that is certainly reachable under an environment, and the values seen along it."""

    def __init__(self, an, env, starts=None, also=None, loose=False):
        """loose: everything that is not excluded by the environment, instead of what certainly agrees with it."""
        self.an, self.env, self.w = an, env, Walk(an, env, also)
        self.stop = self.w.possible if loose else self.w.certain
        self.sure = an.reach(starts or [an.g.entry], stop_edge=self.stop)
        self.T = Terms(an.g, allow=lambda p, x, l: p.id in self.sure and not self.stop(p, x, l))

    def has(self, n):
        return n.id in self.sure

    def arg(self, n, i):
        a = n.term["args"]
        return self.T.operand(n, None, a[i]) if i < len(a) else ("unknown", "noarg")

    def retf(self, e, *path):
        return self.T.at(e, None, ((0, 0), tuple(path)))

    def exits(self, variant=None):
        return [e for e in self.an.exits(variant) if e.id in self.sure]

    def events(self, pat=None):
        return [(n, p) for n, p in self.an.events(pat) if n.id in self.sure]

    def path_to(self, starts, goal, stop_node=None):
        return self.an.path_to(starts, goal, stop_node=stop_node, stop_edge=self.stop)

    def result(self, n):
        return self.T.call_term(n, n.term, frozenset())

    def succ(self, n):
        return [m for m, l in n.succ if not self.stop(n, m, l)]
