"""Models of the environment of a template function, for typestate analysis on the exploded graph.

The functions of the template language are driven by a stream of tokens and a stack of frames.  A World replaces the
operations on these (fetching a token, asking for its function's name, processing it, pushing, popping and measuring
the stack) by their abstract effect on a small typestate: which class of token was fetched last, whether it has been
processed, how deep the skipped blocks are nested, what the stack holds.  Every class of token may come next at every
fetch, so all streams are covered (nesting is bounded).  A branch on anything that the abstract state does not
determine ends the path as "not decided": what is reported needs no such branch.
"""
import re
from graph import kill, under
from facts import op_place

W = ("W",)          # root of the typestate
TOK = ("T",)        # the token fetched last
SELF = ("S",)       # the token of the function being executed


def g(env, name, default=None):
    v = env.get((W, (name,)))
    return v[1] if v else default


def gs(**kw):
    return {(W, (k,)): None if v is None else ("c", v) for k, v in kw.items()}


def resolve(env, v, n=0):
    """Follow addresses: (value, place) of what an operand denotes."""
    pl = None
    while v and v[0] == "&" and n < 8:
        pl = v[1]
        v = env.get(pl)
        if v is None and pl[1][-1:] == ("*",):
            q = (pl[0], pl[1][:-1])
            v = env.get(q)
            if v is not None and v[0] != "&":
                pl = q
        n += 1
    return v, pl


def text(env, v):
    v, _ = resolve(env, v)
    if v and v[0] == "c" and isinstance(v[1], str) and v[1].startswith("s:"):
        return v[1][2:]
    return None


UNK_CH = "\ufffd"


SHAPING = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_lowercase": str.lower, "to_ascii_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_uppercase": str.upper}


def strip(m, a, b):
    if not b:
        return a
    while m == "trim_start_matches" and a.startswith(b):
        a = a[len(b):]
    while m == "trim_end_matches" and a.endswith(b):
        a = a[:-len(b)]
    return a


def prefixed(a, b):
    """Whether a starts with b, if that is determined."""
    for x, y in zip(a, b):
        if x == UNK_CH or y == UNK_CH:
            return None
        if x != y:
            return False
    if len(a) < len(b):
        return None if UNK_CH in a else False
    return True


class World:
    maxh = 4

    def __init__(self, F):
        self.F = F
        self.violations = {}        # key -> (node, detail)
        self.undecided = {}
        self.events = {}

    # ---------------------------------------------------------------- interface to the graph
    def start(self, G, env):
        env[(SELF, ("line",))] = ("c", "s:self")
        env[(SELF, ("inner",))] = ("v", "Function")
        env.update({k: v for k, v in gs(h=1, pos=0).items()})

    def bad(self, n, key, detail):
        self.violations.setdefault(key, (n, detail))
        self.broken = True          # the path ends here: what follows a violation is of no interest

    def armed(self, env):
        return g(env, "pos", 0) != 0 or g(env, "armed", False)

    def free(self, G, n, v, pl, env):
        """Whether both ways of an undetermined branch are really possible."""
        if v and v[0] == "c" and not isinstance(v[1], str):
            return True
        src = v[1] if v and v[0] == "d" else pl
        if src is not None and env.get(src, ("?",))[0] == "v":
            return True
        if not self.armed(env):
            return True
        if src is not None:
            r = src[0]
            if r == TOK or r[0] == "P" and r[1] == 1:
                return True
            if r[0] == "E":
                return True
            if isinstance(r[0], int) and len(r) == 2 and not src[1]:
                # the outcome of an external operation does not depend on tokens or frames
                ty = n.frame.body.types[n.frame.body.locals[r[1]]["ty"]]["s"] if r[0] == n.frame.id else ""
                if re.search(r"FromUtf8Error|Utf8Error|io::Error", ty):
                    return True
        self.undecided[n.loc()] = n
        return False

    def exit(self, G, n, env):
        pass

    def array(self, frame, s, env):
        """An array (or vector) literal is built."""

    def opaque(self, G, n, fn, frame, t, env):
        """An opaque call the world does not model: False ends the path."""
        for a in t["args"]:
            p = op_place(a)
            if p is not None and not p[1]:
                ty = frame.body.types[frame.body.locals[p[0]]["ty"]]["s"]
                if ty.startswith("&mut") and re.search(r"process::Scope|Vec<[\w:]*StackFrame>|TokenIter", ty):
                    self.undecided[n.loc()] = n
                    return False
        return True

    def args(self, G, frame, t, env):
        return [G.read_op(frame, a, env) for a in t["args"]]

    def call(self, G, n, path, fn, frame, t, env):
        A = self.args(G, frame, t, env)
        v = [a.get(()) for a in A]
        m = path.rsplit("::", 1)[-1]
        trait = (fn or {}).get("trait", "")
        targs = " ".join(str(frame.body.types[x]["s"]) if isinstance(x, int) else str(x) for x in (fn or {}).get("targs") or ())
        self.broken = False
        r = self.model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if self.broken:
            return []
        if r is not None:
            return r
        return self.base(G, n, path, m, trait, targs, A, v, frame, t, env)

    def model(self, *a):
        return None

    # ---------------------------------------------------------------- strings and plain values
    def base(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path.endswith(("TokenIter::current",)):
            moved = g(env, "pos", 0) != 0
            return [({(): ("v", "Some"), ("Some.0",): ("&", (TOK if moved else SELF, ()), False)}, {})]
        if path.endswith("LocatableToken::traceback"):
            w, pl = resolve(env, v[0])
            i = env.get((pl[0], pl[1] + ("line",))) if pl else None
            self.events.setdefault(("traceback", n.loc()), set()).add(i[1][2:] if i else "?")
            return [({}, {})]
        if m in ("deref", "as_ref", "borrow", "as_str", "as_slice", "as_deref", "deref_mut") and len(v) == 1 and (trait.startswith(("core::ops::deref", "core::convert::AsRef", "core::borrow")) or path.startswith("alloc::string::String")):
            if G.facts.bodies.get((fn_id(t))) is not None and "stuart" in (t["f"].get("fn", {}).get("res") or ""):
                return None
            s = text(env, v[0])
            if s is not None:
                return [({(): ("c", "s:" + s)}, {})]
            w, pl = resolve(env, v[0])
            if v[0] and v[0][0] == "&" and pl is not None:
                return [({(): ("&", pl, v[0][2])}, {})]
            return None
        if m in ("to_string", "to_owned", "into", "from", "into_string", "clone", "must_use", "format", "into_boxed_str", "new_display", "new_debug", "cloned") and len(v) == 1 or path.endswith("Arguments::from_str"):
            if path.startswith("core::option::Option::") or "stuart" in (t["f"].get("fn", {}).get("res") or ""):
                return None
            s = text(env, v[0])
            if m.startswith("new_"):
                if s is None:
                    w, pl = resolve(env, v[0])
                    if w and w[0] == "c" and isinstance(w[1], int) and not isinstance(w[1], bool):
                        s = str(w[1])
                return [({(): ("c", "s:" + (s if s is not None else UNK_CH))}, {})]
            if s is not None:
                return [({(): ("c", "s:" + s)}, {})]
            return None
        if path.endswith("fmt::Arguments::new"):
            return [({(): ("c", "s:" + self.fmt(env, v))}, {})]
        if m in ("eq", "ne") and len(v) == 2:
            r = self.equal(env, v[0], v[1])
            if r is not None:
                return [({(): ("c", r == (m == "eq"))}, {})]
            return None
        if m in ("starts_with", "ends_with", "contains") and len(v) == 2:
            a, b = text(env, v[0]), self.pattern(env, v[1])
            if a is not None and b is not None:
                r = prefixed(a, b) if m == "starts_with" else None if UNK_CH in a + b else (a.endswith(b) if m == "ends_with" else b in a)
                if r is not None:
                    return [({(): ("c", r)}, {})]
            return None
        if m in ("strip_prefix", "strip_suffix") and len(v) == 2:
            a, b = text(env, v[0]), self.pattern(env, v[1])
            if a is not None and b is not None and (m == "strip_prefix" or UNK_CH not in a + b):
                r = prefixed(a, b) if m == "strip_prefix" else a.endswith(b)
                if r is True:
                    return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + (a[len(b):] if m == "strip_prefix" else a[:len(a) - len(b)]))}, {})]
                if r is False:
                    return [({(): ("v", "None")}, {})]
            return None
        if m == "is_empty" and len(v) == 1:
            a = text(env, v[0])
            if a is not None and (a == "" or set(a) != {UNK_CH}):
                return [({(): ("c", a == "")}, {})]
        if m == "len" and len(v) == 1:
            a = text(env, v[0])
            if a is not None and UNK_CH not in a:
                return [({(): ("c", len(a.encode()))}, {})]
        if m in SHAPING and len(v) == 1 or m in ("replace", "trim_start_matches", "trim_end_matches") and path.startswith(("str::", "alloc::str::", "core::str::")):
            l = [self.pattern(env, x) for x in v]
            if all(x is not None and UNK_CH not in x for x in l):
                return [({(): ("c", "s:" + (SHAPING[m](l[0]) if m in SHAPING else l[0].replace(l[1], l[2]) if m == "replace" else strip(m, *l)))}, {})]
        if m in ("saturating_sub", "saturating_add", "min", "max", "abs_diff", "saturating_mul") and len(v) == 2:
            x, y = (resolve(env, z)[0] for z in v)
            if all(z and z[0] == "c" and isinstance(z[1], int) and not isinstance(z[1], bool) for z in (x, y)) and x[1] >= 0 <= y[1]:
                x, y = x[1], y[1]
                r = max(x - y, 0) if m == "saturating_sub" else x + y if m == "saturating_add" else x * y if m == "saturating_mul" else abs(x - y) if m == "abs_diff" else min(x, y) if m == "min" else max(x, y)
                if r < 1 << 31:
                    return [({(): ("c", r)}, {})]
        if m == "default" and not v:
            d = t["dest"]
            ty = frame.body.types[frame.body.locals[d[0]]["ty"]]["s"] if not d[1] else ""
            if ty in ("usize", "u32", "i32", "u64", "isize", "u8", "u16", "i64"):
                return [({(): ("c", 0)}, {})]
            if ty == "bool":
                return [({(): ("c", False)}, {})]
        return None

    def pattern(self, env, v):
        s = text(env, v)
        if s is None and v and v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool) and 0 < v[1] < 0x110000:
            s = chr(v[1])
        return s

    def equal(self, env, a, b, d=0):
        x, px = resolve(env, a)
        y, py = resolve(env, b)
        if not x or not y:
            return None
        if x[0] == "c" and y[0] == "c":
            if isinstance(x[1], str) != isinstance(y[1], str):
                return None
            if isinstance(x[1], str) and UNK_CH in x[1] + y[1]:
                p = prefixed(x[1], y[1].split(UNK_CH)[0]) if UNK_CH in y[1] else prefixed(y[1], x[1].split(UNK_CH)[0])
                return False if p is False else None
            return x[1] == y[1]
        if x[0] == "v" and y[0] == "v":
            if x[1] != y[1]:
                return False
            if x[1] in ("None",):
                return True
            if px is None or py is None or d > 4:
                return None
            f = x[1] + ".0"
            qx, qy = (px[0], px[1] + (f,)), (py[0], py[1] + (f,))
            if qx not in env or qy not in env:
                # a unit variant on both sides
                if not under(env, (px[0], px[1] + (f,))) and not under(env, (py[0], py[1] + (f,))) and x[1] in ("Less", "Equal", "Greater", "Null", "Errored", "Evaluated", "Rejected", "Fulfilled", "AlreadyExists", "NotFound", "PermissionDenied"):
                    return True
                return None
            return self.equal(env, env[qx], env[qy], d + 1)
        return None

    def fmt(self, env, v):
        from ana import fmt_parts
        w, _ = resolve(env, v[0])
        if not w or w[0] != "b":
            return UNK_CH
        args = []
        if len(v) > 1:
            _, pl = resolve(env, v[1])
            if pl is not None:
                while env.get((pl[0], pl[1] + ("[0]",))) is None and pl[1][-1:] == ("*",):
                    pl = (pl[0], pl[1][:-1])
                i = 0
                while (pl[0], pl[1] + ("[%d]" % i,)) in env:
                    args.append(env[(pl[0], pl[1] + ("[%d]" % i,))])
                    i += 1
        out = ""
        for p in fmt_parts(bytes(w[1]), [("val", a) for a in args]):
            if isinstance(p, str):
                out += p
            else:
                s = text(env, p[1]) if p[0] == "val" else None
                out += s if s is not None else UNK_CH
        return out


def fn_id(t):
    f = t["f"].get("fn", {}) if t["f"]["k"] == "const" else {}
    return f.get("resid") or f.get("id") or ""


class Tokens(World):
    """The world of one function's `execute`: a stream of tokens, a stack."""
    openers = ("for", "ifdefined", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle")
    plain = ("insert", "import", "dateformat", "excerpt", "timetoread", "beginning", "fortune", "iframe", "endless", "elsewhere")
    depth = 2

    def classes(self, env):
        yield "raw", "Raw", None
        yield "var", "Variable", None
        d = g(env, "depth", 0)
        for x in ("begin",) + self.openers:
            if d < self.depth:
                yield "open", "Function", x
        for x in self.plain:
            yield "other", "Function", x
        yield "else", "Function", "else"
        yield "end", "Function", "end"

    def fetch(self, G, n, env):
        """Outcomes of fetching a token."""
        self.settle(n, env)
        outs = []
        cl = {(TOK, ()): None}
        if self.eof(env):
            outs.append(({(): ("v", "None")}, {**cl, **gs(tok=None, want=None, done=None, pos=g(env, "pos", 0) or 1, eof=1)}))
        for cls, var, name in self.classes(env):
            want, upd = self.expect(env, cls, name)
            e = dict(cl)
            e.update(gs(tok=cls + (":" + name if name else ""), want=want, done=0, pos=1, **upd))
            e[(TOK, ("line",))] = ("c", "s:next")
            e[(TOK, ("inner",))] = ("v", var)
            if name:
                e[(TOK, ("inner", "Function.0", "name"))] = ("c", "s:" + name)
            outs.append(({(): ("v", "Some"), ("Some.0",): ("&", (TOK, ()), False)}, e))
        return outs

    def eof(self, env):
        return True

    def settle(self, n, env):
        """The token fetched before must have been treated as it had to be."""
        tok = g(env, "tok")
        if tok is None:
            return
        if g(env, "want") and not g(env, "done"):
            self.bad(n, "not-processed/%s/%s" % (self.mode(env), tok), "%s is not processed %s" % (describe(tok), self.context(env)))

    def context(self, env):
        return ""

    def mode(self, env):
        return "skipped" if g(env, "cond") is False else "rendered"

    def expect(self, env, cls, name):
        return True, {}

    def processed(self, G, n, env):
        """Outcomes of processing the token."""
        tok = g(env, "tok")
        if g(env, "done"):
            self.bad(n, "processed-twice/" + str(tok), "%s is processed twice" % describe(tok))
        elif g(env, "want") is False:
            self.bad(n, "processed/%s/%s" % (self.mode(env), tok), "%s is processed %s" % (describe(tok), self.context(env)))
        outs = [({(): ("v", "Err")}, gs(done=1, err=1))]
        for upd in self.effects(env, tok):
            outs.append(({(): ("v", "Ok")}, gs(done=1, **upd)))
        return outs

    def effects(self, env, tok):
        yield {}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if m == "next" and "TokenIter" in targs + path:
            if g(env, "err"):
                self.bad(n, "error-dropped", "rendering continues after a token failed")
            return self.fetch(G, n, env)
        if path.endswith("LocatableToken::process") or m == "execute" and trait.endswith("functions::Function"):
            _, pl = resolve(env, v[0])
            if pl is not None and pl[0] == TOK:
                return self.processed(G, n, env)
            return None
        if m == "name" and trait.endswith("functions::Function"):
            _, pl = resolve(env, v[0])
            if pl is not None and pl[0] != SELF:
                x = env.get((pl[0], pl[1] + ("name",))) or pl[1][-1:] == ("*",) and env.get((pl[0], pl[1][:-1] + ("name",)))
                if x:
                    return [({(): x}, {})]
        if path.endswith("TokenIter::waypoint"):
            return [({(): ("c", g(env, "pos", 0))}, {})]
        if path.endswith("TokenIter::rewind_to"):
            w = v[1]
            if w and w[0] == "c":
                return [({}, gs(pos=w[1], tok=None, want=None, done=None, **self.rewound(n, env)))]
            return None
        if "StackFrame" in targs and path.startswith("alloc::vec::Vec::") or "StackFrame" in targs and m in ("last", "last_mut") and "[T]" in path:
            return self.stack(G, n, m, A, v, env)
        return None

    def rewound(self, n, env):
        return {}

    def stack(self, G, n, m, A, v, env):
        h = g(env, "h")
        if m == "len":
            return [({(): ("c", h)}, {})]
        if m == "is_empty":
            return [({(): ("c", h == 0)}, {})]
        if m == "push":
            return [({}, gs(h=h + 1, **self.pushed(n, env, A[1])))] if h < self.maxh else []
        if m == "pop":
            if h == 0:
                return [({(): ("v", "None")}, {})]
            sub, upd = self.popped(n, env)
            return [({(): ("v", "Some"), **{("Some.0",) + k: x for k, x in sub.items()}}, gs(h=h - 1, **upd))]
        if m in ("last", "last_mut"):
            if h == 0:
                return [({(): ("v", "None")}, {})]
            return [({(): ("v", "Some"), ("Some.0",): ("&", (("F", h), ()), m == "last_mut")}, {})]
        return None

    def pushed(self, n, env, frame):
        return {}

    def popped(self, n, env):
        return {}, {}

    def named(self, n, frame):
        """The name of a frame that is pushed, as far as it is known."""
        v = frame.get(("name",))
        t = v[1][2:] if v and v[0] == "c" and isinstance(v[1], str) else None
        self.events.setdefault(("frame", n.loc()), set()).add(t)
        return t


OUT = "<output>"


class Closing(Tokens):
    """The world of `begin`, `end` and `else`: a stack of frames with given names, a function with given fields."""
    maxh = 5

    def __init__(self, F, frames, fields):
        super().__init__(F)
        self.frames, self.fields = frames, fields
        self.oks = []

    def start(self, G, env):
        super().start(G, env)
        env.update(gs(h=len(self.frames), armed=1))
        for i, x in enumerate(self.frames):
            env[(("F", i + 1), ("name",))] = ("c", "s:" + x)
            env[(("F", i + 1), ("output",))] = ("c", "s:" + OUT + str(i + 1))
        for f, v in self.fields.items():
            env[(("P", 1), (f,))] = v

    def popped(self, n, env):
        h = g(env, "h")
        return {k[1]: v for k, v in env.items() if k[0] == ("F", h)}, {}

    def pushed(self, n, env, frame):
        return {"pushed": self.named(n, frame) or UNK_CH}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path.startswith("alloc::vec::Vec::") and "Vec<u8>" in targs and m in ("push", "insert"):
            x = A[-1]
            return [({}, gs(sec=text(env, x.get(("0",))) or UNK_CH, content=text(env, x.get(("1",))) or UNK_CH))]
        if m in ("extend_from_slice", "extend", "append", "write_all") and len(v) == 2:
            _, pl = resolve(env, v[0])
            if pl is not None and pl[0][0] == "F":
                if g(env, "out"):
                    self.bad(n, "twice", "the output of a block is forwarded twice")
                return [({(): ("v", "Ok")} if m == "write_all" else {}, gs(out=text(env, v[1]) or UNK_CH, outh=pl[0][1]))]
        if m in ("clone", "to_vec", "take", "as_slice", "to_owned") and len(v) == 1:
            s = text(env, v[0])
            if s and s.startswith(OUT):
                return [({(): ("c", "s:" + s)}, {})]
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if v and v[0] == "v" and v[1] == "Ok":
            self.oks.append((n, env))


class Page(Tokens):
    """The world of a page: its token streams one after the other, a stack with the base frame."""
    maxh = 3

    def effects(self, env, tok):
        cls, _, name = tok.partition(":")
        h = g(env, "h") or 0
        if name == "begin":
            if h < self.maxh:
                yield {"h": h + 1, "n%d" % (h + 1): "begin:x"}
        elif cls == "end":
            if h > 1 and g(env, "n%d" % h) != "base":
                yield {"h": h - 1, "n%d" % h: None}
        elif cls == "else":
            return
        else:
            yield {}

    def expect(self, env, cls, name):
        return True, {}

    def fetch(self, G, n, env):
        outs = super().fetch(G, n, env)
        if (g(env, "h") or 0) > 1:
            outs = [(sub, {**gh, **gs(open=1)} if sub[()][1] == "None" else gh) for sub, gh in outs]
        return outs

    def context(self, env):
        return "on a page"

    def stack(self, G, n, m, A, v, env):
        h = g(env, "h")
        if h is None:
            return None
        if m == "drain" and v[1] in (None, ("c", "all")) and self.whole:
            # the frames leave the stack, to be taken from either end
            return [({(): ("c", "drained")}, gs(h=0, lo=1, hi=h, **{"m%d" % i: g(env, "n%d" % i, "base") for i in range(1, h + 1)}, **{"n%d" % i: None for i in range(1, h + 1)}))]
        if m in ("remove", "swap_remove") and v[1] == ("c", 0) and h:
            rest = [g(env, "n%d" % i, "base") for i in range(2, h + 1)]
            rest = rest[-1:] + rest[:-1] if m == "swap_remove" else rest
            return [({("name",): ("c", "s:" + g(env, "n1", "base"))}, gs(h=h - 1, **{"n%d" % h: None}, **{"n%d" % (i + 1): x for i, x in enumerate(rest)}))]
        if m == "clear" or m == "truncate" and v[1] and v[1][0] == "c" and isinstance(v[1][1], int):
            k = 0 if m == "clear" else min(v[1][1], h)
            return [({}, gs(h=k, **{"n%d" % i: None for i in range(k + 1, h + 1)}))]
        return super().stack(G, n, m, A, v, env)

    def popped(self, n, env):
        h = g(env, "h")
        return {("name",): ("c", "s:" + g(env, "n%d" % h, "base"))}, {"n%d" % h: None}

    def pushed(self, n, env, frame):
        return {"n%d" % (g(env, "h") + 1): self.named(n, frame) or "base"}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path == "alloc::vec::Vec::new" and "StackFrame" in targs or path == "alloc::vec::Vec::with_capacity" and "StackFrame" in targs:
            return [({}, gs(h=0))]
        if path.endswith("TokenIter::new"):
            self.settle(n, env)
            return [({}, {(TOK, ()): None, **gs(tok=None, want=None, done=None, eof=None)})]
        if v and g(env, "lo") is not None and resolve(env, v[0])[0] == ("c", "drained"):
            lo, hi = g(env, "lo"), g(env, "hi")
            if m in ("rev", "by_ref", "into_iter"):
                return [({(): v[0]}, {})] if m != "rev" else None
            if m in ("next", "next_back", "last"):
                if lo > hi:
                    return [({(): ("v", "None")}, {})]
                k = lo if m == "next" else hi
                return [({(): ("v", "Some"), ("Some.0", "name"): ("c", "s:" + g(env, "m%d" % k))}, gs(lo=lo + (m == "next"), hi=hi - (m != "next")))]
        self.whole = m == "drain" and "RangeFull" in str(targs)
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def start(self, G, env):
        super().start(G, env)
        env.pop((W, ("h",)))

    def free(self, G, n, v, pl, env):
        # whatever depends on the blocks left open is modelled, or has ended the path in `opaque` or `call`
        return True

    def opaque(self, G, n, fn, frame, t, env):
        for a in t["args"]:
            p = op_place(a)
            if p is not None:
                ty = frame.body.types[frame.body.locals[p[0]]["ty"]]["s"]
                if re.search(r"(\[|Vec<|Iter<|Rev<|Iter<'\w+, )[\w:]*StackFrame|&mut [\w:]*StackFrame|process::Scope|TokenIter", ty):
                    self.undecided[n.loc()] = n
                    return False
        return True

    def call(self, G, n, path, fn, frame, t, env):
        r = super().call(G, n, path, fn, frame, t, env)
        m = path.rsplit("::", 1)[-1]
        if r is None and m in ("eq", "ne", "starts_with", "ends_with", "contains", "is_empty", "strip_prefix", "strip_suffix", "cmp", "partial_cmp", "split", "split_once", "find", "as_bytes", "len"):
            if any(text(env, a.get(())) in ("base", "begin:x") for a in self.args(G, frame, t, env)):
                self.undecided[n.loc()] = n
                return []
        return r

    def array(self, frame, s, env):
        ty = frame.body.types[frame.body.locals[s["p"][0]]["ty"]]["s"]
        if not s["p"][1] and re.search(r"Vec<[\w:]*StackFrame", ty) and len(s["r"]["ops"]) < 3:
            for k in [k for k in env if k[0] == W and re.match(r"h|n\d", k[1][0])]:
                del env[k]
            env.update(gs(h=len(s["r"]["ops"]), **{"n%d" % (i + 1): "base" for i in range(len(s["r"]["ops"]))}))

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if not v or v[0] != "v" or v[1] != "Ok":
            return
        self.settle(n, env)
        self.events["ok"] = self.events.get("ok", 0) + 1
        if g(env, "err"):
            self.bad(n, "error-dropped", "the page is rendered although a token in it failed")
        if g(env, "open"):
            self.bad(n, "open-block", "the page is rendered although a block in it was never closed")


def describe(tok):
    cls, _, name = (tok or "?").partition(":")
    return {"raw": "text", "var": "a variable", "else": "`else`", "end": "`end`"}.get(cls) or "`%s`" % name


class Block(Tokens):
    """The world of a block function: its body runs up to its own `end`; `cond` says whether the body is rendered."""
    has_else = True

    def context(self, env):
        c = g(env, "cond")
        d = g(env, "depth", 0)
        return "in the branch that is %s%s" % ("not taken" if c is False else "taken", ", %d deep" % d if d else "")

    def closed(self, env):
        return g(env, "h") < g(env, "own", 99)

    def free(self, G, n, v, pl, env):
        src = v[1] if v and v[0] == "d" else pl
        if src is not None and src[0] == ("P", 1) and self.armed(env) and env.get(src, ("?",))[0] != "v":
            self.undecided[n.loc()] = n
            return False
        return super().free(G, n, v, pl, env)

    def forget(self, env):
        """What does not matter once the body is entered: how the function was called."""
        return {k: None for k, v in env.items() if k[0] == ("P", 1) and v and v[0] in ("v", "c")}

    def fetch(self, G, n, env):
        gone = self.forget(env)
        if g(env, "own") and self.closed(env):
            self.bad(n, "past-end", "tokens are consumed after the `end` of the block")
        if g(env, "own") is None:
            self.bad(n, "no-frame", "the body is entered without a frame of its own")
        return [(sub, {**gone, **gh}) for sub, gh in super().fetch(G, n, env)]

    def expect(self, env, cls, name):
        if g(env, "cond") is not False:
            return True, {}
        d = g(env, "depth", 0)
        if cls == "open":
            return False, {"depth": d + 1}
        if cls == "end" and d > 0:
            return False, {"depth": d - 1}
        return cls in ("end", "else") and d == 0, {}

    def effects(self, env, tok):
        cls, _, name = tok.partition(":")
        h, own = g(env, "h"), g(env, "own", 0)
        if name == "begin":
            if h < self.maxh:
                yield {"h": h + 1}
        elif cls == "end":
            if h > 0:
                yield {"h": h - 1}
        elif cls == "else":
            if h == own and self.has_else:
                yield {"cond": not g(env, "cond")}
        else:
            yield {}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if r is None and m in ("eq", "ne", "starts_with", "ends_with", "contains", "is_empty") and self.armed(env) and (g(env, "tok") or "").partition(":")[0] in ("var", "raw"):
            for a in A:
                for x in a.values():
                    pl = resolve(env, x)[1]
                    for q in [pl] + [resolve(env, y)[1] for k, y in env.items() if pl is not None and k[0] == pl[0] and k[1][:len(pl[1])] == pl[1]]:
                        if q is not None and q[0] == TOK and any(re.match(r"(Variable|Raw)\.0$", str(z)) for z in q[1]):
                            # the text of the token may be any
                            return [({(): ("c", True)}, {}), ({(): ("c", False)}, {})]
        return r

    fname = None

    def pushed(self, n, env, frame):
        self.check_name(n, frame)
        return {"own": g(env, "h") + 1}

    def check_name(self, n, frame):
        t = self.named(n, frame)
        if t is not None and self.fname and prefixed(t, self.fname + ":") is False:
            self.bad(n, "frame-name", "the block is entered under the name %r, which its own `end` does not match" % t.replace(UNK_CH, "…"))

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if not v or v[0] != "v" or v[1] != "Ok":
            return
        self.events["ok"] = self.events.get("ok", 0) + 1
        self.settle(n, env)
        if g(env, "err"):
            self.bad(n, "error-dropped", "the block succeeds although a token in it failed")
        if g(env, "eof"):
            self.bad(n, "eof", "the block succeeds although its `end` is missing")
        elif g(env, "own") and not self.closed(env):
            self.bad(n, "left-early", "the block is left before its `end`")
        elif g(env, "pos", 0) == 0:
            self.bad(n, "not-entered", "the block succeeds without consuming its body")


class Loop(Block):
    """The world of `for`: a source of items; each iteration starts at the same token; nothing to loop over skips."""
    has_else = False
    maxh = 3

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        d = t["dest"]
        if m in ("next", "next_back", "pop", "pop_front") and not d[1] and frame.body.krate == "stuart_core":
            ty = frame.body.types[frame.body.locals[d[0]]["ty"]]["s"]
            if re.match(r"(\w+::option::)?Option<.*humphrey_json::(value::)?Value", ty) and "TokenIter" not in targs + path and "StackFrame" not in ty:
                self.items.add(n.loc())
                if frame.depth == 0:
                    return [({(): ("v", "Some")}, gs(fresh=1)), ({(): ("v", "None")}, gs(dry=1))]
        if path == "alloc::vec::Vec::push" and "Value" in targs and "String" in targs:
            _, pl = resolve(env, v[0])
            if pl is not None:
                return [({}, {(pl[0], pl[1] + ("filled",)): ("c", True)})]
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def __init__(self, F):
        super().__init__(F)
        self.items = set()

    def context(self, env):
        return "in the body of a loop%s" % (" over nothing" if g(env, "cond") is False else "")

    def pushed(self, n, env, frame):
        self.check_name(n, frame)
        filled = ("variables", "filled") in frame
        if filled:
            return {"own": g(env, "h") + 1, "cond": True, "iterated": 1}
        if g(env, "iterated"):
            self.bad(n, "iterated-and-skipped", "the body is skipped after it was rendered")
        return {"own": g(env, "h") + 1, "cond": False}

    def fetch(self, G, n, env):
        outs = super().fetch(G, n, env)
        if g(env, "cond") and g(env, "fresh") and g(env, "pos", 0) != 0:
            self.bad(n, "not-rewound", "an iteration does not start at the first token of the body")
        return [(sub, {**gh, **gs(fresh=None)}) for sub, gh in outs]

# ---------------------------------------------------------------- lists of known values
LEN = ("#",)
ITER = re.compile(r"core::iter|core::slice|alloc::vec|core::str::iter|core::array")


class Lists(World):
    """Short lists with known elements, and iterators over them, by value or by reference."""

    def lost(self, env):
        env[(W, ("lost",))] = ("c", 1)

    def opaque(self, G, n, fn, frame, t, env):
        for a in t["args"]:
            sub = G.read_op(frame, a, env)
            _, pl = resolve(env, sub.get(()))
            if LEN in sub or pl is not None and (pl[0], pl[1] + LEN) in env or any(k[-1:] == ("at",) for k in sub) or pl is not None and (pl[0], pl[1] + ("at",)) in env:
                self.lost(env)
        return True

    def free(self, G, n, v, pl, env):
        return True

    def listing(self, env, A, i=0):
        """(place or None, sub) of the list an operand is or refers to."""
        sub = A[i]
        if LEN in sub:
            return None, sub
        _, pl = resolve(env, sub.get(()))
        if pl is not None and (pl[0], pl[1] + LEN) in env:
            return pl, dict(under(env, pl))
        return None, None

    def iterating(self, env, A, i=0):
        sub = A[i]
        if ("at",) in sub:
            return (None, sub) if ("src",) + LEN in sub else (None, None)
        _, pl = resolve(env, sub.get(()))
        if pl is not None and (pl[0], pl[1] + ("at",)) in env and (pl[0], pl[1] + ("src",) + LEN) in env:
            return pl, dict(under(env, pl))
        return None, None

    @staticmethod
    def made(items):
        sub = {LEN: ("c", len(items))}
        for i, x in enumerate(items):
            for k, v in x.items():
                sub[("[%d]" % i,) + k] = v
        return sub

    @staticmethod
    def items(sub):
        n = sub[LEN][1]
        return [{k[1:]: v for k, v in sub.items() if k[:1] == ("[%d]" % i,)} for i in range(n)]

    def iterate(self, items):
        sub = {("src",) + k: v for k, v in self.made(items).items()}
        sub[("at",)] = ("c", 0)
        return sub

    def rest(self, sub):
        return self.items({k[1:]: v for k, v in sub.items() if k[:1] == ("src",)})[sub[("at",)][1]:]

    # ---------------------------------------------------------------- closures
    maxsub = 4000

    def apply(self, G, n, env, clo, args):
        """Run a closure (or function) value on given arguments: [(result, env afterwards)], or None if it is not known."""
        w, pl = resolve(env, clo.get(()))
        if w is None:
            return None
        if w[0] == "clo":
            b = self.F.bodies.get(w[1])
        elif w[0] == "fn" and not w[1].j.get("ctor"):
            b = self.F.bodies.get(w[1].j.get("resid") or w[1].j["id"])
        else:
            return None
        if b is None or not b.blocks or getattr(self, "nesting", 0) > 4:
            return None
        d = getattr(self, "nesting", 0)

        def out(root):
            return ("N", d, root) if isinstance(root[0], int) else root

        def outv(v):
            return (v[0], (out(v[1][0]), v[1][1])) + v[2:] if v[0] in ("&", "d") else v
        e = {(out(k[0]), k[1]): outv(v) for k, v in env.items()}
        first = 1
        if w[0] == "clo":
            first = 2
            root = ("I", d, "self")
            if b.ty(1)["k"] == "ref":
                if pl is not None:
                    e[((0, 1), ())] = ("&", (out(pl[0]), pl[1]), True)
                else:
                    e.update({(root, k): outv(x) for k, x in clo.items()})
                    e[((0, 1), ())] = ("&", (root, ()), True)
            else:
                e.update({((0, 1), k): outv(x) for k, x in (clo.items() if clo.get(())[0] == "clo" else under(env, pl))})
        # a closure's parameters are those of a call on a tuple
        for i, x in enumerate(args):
            for k, y in x.items():
                e[((0, first + i), k)] = outv(y)
            if () not in x and b.argc >= first + i and b.ty(first + i)["k"] in ("ref", "ptr"):
                e[((0, first + i), ())] = ("&", (("NP", d, i), ()), False)
        world, res = self, []

        class Sub:
            def __getattr__(self, name):
                return getattr(world, name)

            def start(self, G, env):
                for k in [k for k in env if k[0][0] == 0]:
                    del env[k]
                env.update(e)

            def exit(self, G, n, env):
                def back(root):
                    return root[2] if root[:2] == ("N", d) and len(root) == 3 else root

                def backv(v):
                    return (v[0], (back(v[1][0]), v[1][1])) + v[2:] if v[0] in ("&", "d") else v

                def kept(v):
                    return not (v[0] in ("&", "d") and isinstance(v[1][0][0], int))
                r = {k: backv(v) for k, v in under(env, ((0, 0), ())) if kept(v)}
                e2 = {(back(k[0]), k[1]): backv(v) for k, v in env.items() if not isinstance(k[0][0], int) and kept(v)}
                if (r, e2) not in res:
                    res.append((r, e2))
        self.nesting = d + 1
        try:
            Graph_ = type(G)
            Graph_(self.F, b, inline=G.inline, world=Sub(), widen=500, max_nodes=self.maxsub, max_depth=8)
        finally:
            self.nesting = d
        return res

    def put(self, env, pl, sub):
        """The change of the environment that replaces what is at a place."""
        gh = {k: None for k in env if k[0] == pl[0] and k[1][:len(pl[1])] == pl[1] and k[1][len(pl[1]):] not in sub}
        gh.update({(pl[0], pl[1] + k): w for k, w in sub.items()})
        return gh

    def undetermined(self, env):
        pass

    HOF = ("partition", "map", "filter", "filter_map", "find", "rfind", "find_map", "any", "all", "position", "rposition", "for_each", "take_while", "skip_while", "map_while", "inspect")

    def over(self, G, n, m, items, clo, env, pl):
        """Run an iterator method with a closure over known items: [(result, ghosts)] or None."""
        states = [([], dict(env), False)]       # results so far, environment, stopped
        order = list(range(len(items)))
        if m in ("rfind", "rposition"):
            order.reverse()
        byref = m in ("partition", "filter", "find", "rfind", "take_while", "skip_while", "inspect")
        for i in order:
            nxt = []
            for done, e, stop in states:
                if stop:
                    nxt.append((done, e, stop))
                    continue
                if byref:
                    root = ("I", getattr(self, "nesting", 0), n.loc(), i)
                    e = dict(e)
                    for k, w in items[i].items():
                        e[(root, k)] = w
                    arg = {(): ("&", (root, ()), False)}
                else:
                    arg = items[i]
                rs = self.apply(G, n, e, clo, [arg])
                if rs is None:
                    return None
                for r, e2 in rs:
                    w = r.get(())
                    val = w[1] if w and w[0] in ("c", "v") else None
                    if m in ("map", "for_each", "inspect"):
                        nxt.append((done + [(i, r)], e2, False))
                    elif m in ("filter_map", "find_map", "map_while"):
                        if val not in ("Some", "None"):
                            return None
                        got = {k[:0] + ((k[0][7:],) if k[0][6:7] else ()) + k[1:]: x for k, x in r.items() if k[:1] and k[0].startswith("Some.0")}
                        hit = val == "Some"
                        nxt.append((done + [(i, got)] if hit else done, e2, m == "find_map" and hit or m == "map_while" and not hit))
                    else:
                        if not isinstance(val, (bool, int)):
                            return None
                        val = bool(val)
                        if m == "skip_while":
                            keep = not val or bool(done)
                        elif m == "all":
                            keep = not val
                        elif m == "partition":
                            nxt.append((done + [(i, items[i], val)], e2, False))
                            continue
                        else:
                            keep = val
                        nxt.append((done + [(i, items[i])] if keep else done, e2, keep if m in ("find", "rfind", "any", "all", "position", "rposition") else m == "take_while" and not val))
            states = nxt
            if len(states) > 64:
                return None
        outs = []
        for done, e, stop in states:
            gh = {k: None for k in env if k not in e}
            gh.update({k: w for k, w in e.items() if env.get(k) != w and k[0][0] != "I"})
            if m in ("find", "rfind", "find_map"):
                sub = {(): ("v", "Some"), **{("Some.0",) + k: w for k, w in done[0][1].items()}} if done else {(): ("v", "None")}
            elif m in ("position", "rposition"):
                sub = {(): ("v", "Some"), ("Some.0",): ("c", done[0][0])} if done else {(): ("v", "None")}
            elif m == "any":
                sub = {(): ("c", bool(done))}
            elif m == "all":
                sub = {(): ("c", not done)}
            elif m == "for_each":
                sub = {}
            elif m == "partition":
                sub = {(str(j),) + k: w for j, y in ((0, True), (1, False)) for k, w in self.made([x[1] for x in done if x[2] == y]).items()}
            else:
                sub = self.iterate([x for _, x in done])
            if pl is not None:
                rest = items[done[0][0] + 1:] if m in ("find", "find_map", "position", "any", "all") and done else items[:done[0][0]] if m in ("rfind", "rposition") and done else []
                gh.update(self.put(env, pl, self.iterate(rest)))
            outs.append((sub, gh))
        return outs

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if not A:
            return None
        if m in ("new", "from", "into") and path.startswith("alloc::boxed::Box") and len(A) == 1:
            return [(A[0], {})]
        if path.endswith(("TryInto::try_into", "TryFrom::try_from")) or m in ("try_into", "try_from") and v[0] and v[0][0] == "c":
            if v[0] and v[0][0] == "c" and isinstance(v[0][1], int):
                return [({(): ("v", "Ok"), ("Ok.0",): v[0]}, {})]
        if m in ("split", "rsplit") and len(v) == 2:
            s, p = text(env, v[0]), self.pattern(env, v[1])
            if s is not None and p and UNK_CH not in s + p:
                l = s.split(p)
                return [(self.iterate([{(): ("c", "s:" + x)} for x in (l if m == "split" else l[::-1])]), {})]
        if m in ("splitn", "rsplitn") and len(v) == 3 and v[1] and v[1][0] == "c":
            s, p, k = text(env, v[0]), self.pattern(env, v[2]), v[1][1] - 1
            if s is not None and p and UNK_CH not in s + p and k >= 0:
                return [(self.iterate([{(): ("c", "s:" + x)} for x in (s.split(p, k) if m == "splitn" else s.rsplit(p, k)[::-1])]), {})]
        if m in ("split_once", "rsplit_once") and len(v) == 2:
            s, p = text(env, v[0]), self.pattern(env, v[1])
            if s is not None and p and UNK_CH not in s + p:
                l = s.split(p, 1) if m == "split_once" else s.rsplit(p, 1)
                if len(l) == 1:
                    return [({(): ("v", "None")}, {})]
                return [({(): ("v", "Some"), ("Some.0", "0"): ("c", "s:" + l[0]), ("Some.0", "1"): ("c", "s:" + l[1])}, {})]
        pl, it = self.iterating(env, A)
        if it is not None:
            r = self.rest(it)
            if m in ("next", "next_back") and pl is not None:
                if not r:
                    return [({(): ("v", "None")}, {})]
                x = r[0] if m == "next" else r[-1]
                left = r[1:] if m == "next" else r[:-1]
                gh = {k: None for k in env if k[0] == pl[0] and k[1][:len(pl[1]) + 1] == pl[1] + ("src",)}
                gh.update({(pl[0], pl[1] + k): w for k, w in self.iterate(left).items()})
                return [({(): ("v", "Some"), **{("Some.0",) + k: w for k, w in x.items()}}, gh)]
            if m in ("skip", "take") and v[1] and v[1][0] == "c":
                return [(self.iterate(r[v[1][1]:] if m == "skip" else r[:v[1][1]]), {})]
            if m in ("rev", "enumerate"):
                return [(self.iterate(r[::-1] if m == "rev" else [{("0",): ("c", i), **{("1",) + k: w for k, w in x.items()}} for i, x in enumerate(r)]), {})]
            if m in ("last", "nth") and (m == "last" or v[1] and v[1][0] == "c"):
                i = len(r) - 1 if m == "last" else v[1][1]
                sub = {(): ("v", "Some"), **{("Some.0",) + k: w for k, w in r[i].items()}} if 0 <= i < len(r) else {(): ("v", "None")}
                return [(sub, self.put(env, pl, self.iterate(r[i + 1:])) if pl is not None else {})]
            if m in self.HOF and len(A) == 2:
                rs = self.over(G, n, m, r, A[1], env, pl)
                if rs is None:
                    self.undetermined(env)
                return rs
            if m == "collect":
                d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
                if "Vec<" in d and "Result" not in d and "Option" not in d:
                    return [(self.made(r), {})]
                k = re.match(r"(?:\w+::)*(Result|Option)<(?:\w+::)*Vec<", d)
                if k:
                    good, ill = ("Ok", "Err") if k.group(1) == "Result" else ("Some", "None")
                    for i, x in enumerate(r):
                        w = x.get(())
                        if not w or w[0] != "v" or w[1] not in (good, ill):
                            return None
                        if w[1] == ill:
                            return [(x, {})]
                    its = [{((q[0][len(good) + 2:].lstrip("."),) if q[0][len(good) + 2:] else ()) + q[1:]: w for q, w in x.items() if q and q[0].startswith(good + ".0")} for x in r]
                    return [({(): ("v", good), **{(good + ".0",) + q: w for q, w in self.made(its).items()}}, {})]
                return None
            if m in ("into_iter", "by_ref", "peekable", "fuse"):
                return [(A[0], {})]
            if m in ("cloned", "copied"):
                return [(self.iterate([self.deref(env, x) for x in r]), {})]
            if m in ("len", "count"):
                return [({(): ("c", len(r))}, {})]
            return None
        pl, sub = self.listing(env, A)
        if sub is not None:
            k = sub[LEN][1]
            if m == "len":
                return [({(): ("c", k)}, {})]
            if m == "is_empty":
                return [({(): ("c", k == 0)}, {})]
            if pl is not None:
                its = self.items(sub)
                if m == "push" and len(A) == 2:
                    return [({}, self.put(env, pl, self.made(its + [A[1]])))]
                if m == "pop":
                    if not k:
                        return [({(): ("v", "None")}, {})]
                    return [({(): ("v", "Some"), **{("Some.0",) + x: w for x, w in its[-1].items()}}, self.put(env, pl, self.made(its[:-1])))]
                if m in ("extend", "append", "extend_from_slice") and len(A) == 2:
                    p2, more = self.listing(env, A, 1)
                    q2, it = (None, None) if more is not None else self.iterating(env, A, 1)
                    if more is not None or it is not None:
                        new = self.items(more) if more is not None else self.rest(it)
                        if p2 is not None and m == "extend_from_slice" or it is not None and "Value" not in targs:
                            new = [self.deref(env, x) if () in x and x[()][0] == "&" else x for x in new]
                        gh = self.put(env, pl, self.made(its + new))
                        if m == "append" and p2 is not None:
                            gh.update(self.put(env, p2, self.made([])))
                        return [({}, gh)]
                if m == "clear":
                    return [({}, self.put(env, pl, self.made([])))]
                if m == "truncate" and v[1] and v[1][0] == "c":
                    return [({}, self.put(env, pl, self.made(its[:v[1][1]])))]
                if m == "split_off" and v[1] and v[1][0] == "c" and isinstance(v[1][1], int):
                    return [(self.made(its[v[1][1]:]), self.put(env, pl, self.made(its[:v[1][1]])))] if v[1][1] <= k else []
                if m in ("remove", "swap_remove") and v[1] and v[1][0] == "c" and 0 <= v[1][1] < k:
                    i = v[1][1]
                    return [(its[i], self.put(env, pl, self.made(its[:i] + its[i + 1:] if m == "remove" or i == k - 1 else its[:i] + its[-1:] + its[i + 1:-1])))]
                if m in ("remove", "swap_remove") and v[1] and v[1][0] == "c" and isinstance(v[1][1], int) and "Vec" in path and v[1][1] >= k:
                    return []
                if m == "insert" and len(A) == 3 and v[1] and v[1][0] == "c" and 0 <= v[1][1] <= k:
                    return [({}, self.put(env, pl, self.made(its[:v[1][1]] + [A[2]] + its[v[1][1]:])))]
                if m == "reverse":
                    return [({}, self.put(env, pl, self.made(its[::-1])))]
                if m in ("retain", "retain_mut") and len(A) == 2:
                    r = self.over(G, n, "filter", [{(): ("&", (pl[0], pl[1] + ("[%d]" % i,)), False)} for i in range(k)], A[1], env, None)
                    if r is not None:
                        return [({}, {**gh, **self.put({**env, **{q: w for q, w in gh.items() if w is not None}}, pl, self.made([its[int(x[()][1][1][-1][1:-1])] for x in self.rest(sub2)]))}) for sub2, gh in r]
                    return None
            if m in ("into_iter", "iter", "iter_mut", "drain"):
                if m == "drain":
                    if pl is not None and re.search("RangeFull", targs + frame.body.types[frame.body.locals[op_place(t["args"][1])[0]]["ty"]]["s"] if op_place(t["args"][1]) else targs + str(t["args"][1])):
                        return [(self.iterate(self.items(sub)), self.put(env, pl, self.made([])))]
                    return None
                if pl is None:
                    return [(self.iterate(self.items(sub)), {})]
                return [(self.iterate([{(): ("&", (pl[0], pl[1] + ("[%d]" % i,)), m == "iter_mut")} for i in range(k)]), {})]
            if m in ("index", "get", "first", "last", "index_mut", "get_mut", "first_mut", "last_mut") and pl is not None:
                i = 0 if m.startswith("first") else k - 1 if m.startswith("last") else v[1][1] if v[1] and v[1][0] == "c" else None
                if isinstance(i, int) and not isinstance(i, bool):
                    e = ("&", (pl[0], pl[1] + ("[%d]" % i,)), m.endswith("mut"))
                    if m in ("index", "index_mut"):
                        return [({(): e}, {})] if 0 <= i < k else []
                    return [({(): ("v", "Some"), ("Some.0",): e}, {})] if 0 <= i < k else [({(): ("v", "None")}, {})]
                lo = A[1].get(("start",)) if len(A) > 1 else None
                hi = A[1].get(("end",)) if len(A) > 1 else None
                if m == "index" and (lo or hi) and all(x is None or x[0] == "c" for x in (lo, hi)):
                    a, b = lo[1] if lo else 0, hi[1] if hi else k
                    if not 0 <= a <= b <= k:
                        return []
                    root = ("L", n.loc(), a, b)
                    gh = {(root, kk): w for kk, w in self.made(self.items(sub)[a:b]).items()}
                    return [({(): ("&", (root, ()), False)}, gh)]
            if m in ("clone", "to_vec", "to_owned", "as_slice", "deref", "as_ref", "borrow", "into_boxed_slice"):
                if m in ("clone", "to_vec", "to_owned"):
                    return [(sub, {})]
                if pl is not None:
                    return [({(): ("&", pl, False)}, {})]
            return None
        return None

    def deref(self, env, x):
        _, pl = resolve(env, x.get(()))
        return dict(under(env, pl)) if pl is not None else x


def reaches(env, sub, suffix=()):
    w, _ = resolve(env, sub.get(suffix))
    return w


class Args(Lists):
    """The world of a function's parser: a call with given arguments. Collects what the accepted calls are parsed to."""

    def __init__(self, F, positional, named):
        super().__init__(F)
        self.positional, self.named = positional, named
        self.parsed = []
        self.rejected = 0

    def start(self, G, env):
        b = G.root_body
        i = next((i for i in range(1, b.argc + 1) if "RawFunction" in b.types[b.locals[i]["ty"]]["s"]), None)
        if i is None:
            return
        base = (0, i)
        if b.ty(i)["k"] in ("ref", "ptr"):
            base = ("P", i)
        env.update({(base, ("positional_args",) + k): v for k, v in self.made([self.raw(x) for x in self.positional]).items()})
        named = [{("0",): ("c", "s:" + nm), **{("1",) + k: v for k, v in self.raw(x).items()}} for nm, x in self.named]
        env.update({(base, ("named_args",) + k): v for k, v in self.made(named).items()})

    @staticmethod
    def raw(x):
        kind, val = x
        return {(): ("v", kind), (kind + ".0",): ("c", val if isinstance(val, int) else "s:" + val)}

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if not v or v[0] != "v":
            self.parsed.append(None)
        elif v[1] == "Ok":
            if g(env, "lost"):
                self.parsed.append(None)
            else:
                p = {k[1:]: x for k, x in under(env, ((0, 0), ())) if k[:1] == ("Ok.0",) and x[0] in ("c", "v")}
                if p not in self.parsed:
                    self.parsed.append(p)
        else:
            self.rejected += 1


SORTS = re.compile(r"sort(_unstable)?(_by|_by_key|_by_cached_key)?$")
SAME = ("into_iter", "iter", "iter_mut", "collect", "cloned", "copied", "to_vec", "clone", "into_boxed_slice", "into_vec", "by_ref", "fuse", "deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "to_owned", "borrow", "borrow_mut", "from", "into", "from_iter", "as_deref", "index", "index_mut", "drain")
VALUE = re.compile(r"humphrey_json::(value::)?Value")


CHOOSING = ("filter", "retain", "retain_mut", "skip_while", "take_while")
LENGTHS = (0, 1, 2, 3, 4, 9)


def staged(stages, n):
    """What a list of n items becomes in these stages: (in which order by what, which of the items, if chosen by their contents)."""
    l, marks = list(range(n)), []
    for x in stages:
        if x == "rev":
            l.reverse()
        elif x.startswith("skip:"):
            l = l[int(x[5:]):]
        elif x.startswith("take:"):
            l = l[:int(x[5:])]
        elif x:
            marks.append((x, tuple(l)))
            l = sorted(l)
    return marks, l


class Pipeline(Lists):
    """The world of a loop: which stages the items have gone through when the loop fetches one."""

    def __init__(self, F, fields, direction):
        super().__init__(F)
        self.fields, self.direction = fields, direction
        self.fetched = {}
        self.bound = {}
        self.lostat = set()

    def start(self, G, env):
        super().start(G, env)
        for k, v in self.fields.items():
            env[(("P", 1), k)] = v

    def pipe(self, env, v):
        w, pl = resolve(env, v)
        if w and w[0] == "c" and isinstance(w[1], str) and w[1].startswith("p:"):
            return w[1], pl
        return None, pl

    def ty(self, frame, o):
        p = op_place(o)
        return frame.body.types[frame.body.locals[p[0]]["ty"]]["s"] if p is not None and not p[1] else ""

    def opaque(self, G, n, fn, frame, t, env):
        super().opaque(G, n, fn, frame, t, env)
        for a in t["args"]:
            if self.pipe(env, G.read_op(frame, a, env).get(()))[0] or any(x[0] == "c" and isinstance(x[1], str) and x[1].startswith("p:") for x in G.read_op(frame, a, env).values()):
                if last_of(fn) not in ("drop", "drop_in_place", "branch", "from_residual"):
                    self.lost(env)
                    self.lostat.add(n.loc())
        return True

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        r = super().model(G, n, path, m, trait, targs, A, v, frame, t, env)
        if r is not None:
            return r
        if g(env, "lost"):
            return []
        d = t["dest"]
        dty = frame.body.types[frame.body.locals[d[0]]["ty"]]["s"] if not d[1] else ""
        if path == "alloc::vec::Vec::push" and "Value" in targs and "String" in targs:
            if g(env, "item"):
                w = reaches(env, A[1], ("1",))
                if w and w[0] == "c":
                    self.bound.setdefault((text(env, A[1].get(("0",))), w[1]), n)
                return []
            return None
        if not A:
            return None
        p, pl = self.pipe(env, v[0])
        stage = m in SAME or m in ("rev", "skip", "take", "reverse", "truncate") or SORTS.match(m)
        if p is None and (stage or m in ("next", "next_back", "pop")) and (m in ("next", "next_back", "pop") or not g(env, "made")):
            ty = self.ty(frame, t["args"][0])
            if VALUE.search(ty if m not in ("next", "next_back", "pop") else dty) and not re.search(r"StackFrame|\(std::string::String", ty + dty):
                if m in ("next", "next_back", "pop") and not re.match(r"[\w:]*Option<[\w:]*Value>$", dty):
                    return None
                if not (m in ("next", "next_back", "pop") and g(env, "made")):
                    if re.search(r"Vec<|Iter|\[", ty) or m in ("next", "next_back", "pop"):
                        p = "p:"
            elif m == "collect" and re.search(r"(Vec|VecDeque|Box)<\[?[\w:]*Value\]?>$", dty):
                return [({(): ("c", "p:")}, gs(made=1))]
        if p is None:
            if m in ("next", "next_back", "pop") and re.match(r"[\w:]*Option<[\w:]*Value>$", dty) and g(env, "made"):
                self.lostat.add(n.loc())
                return []
            return None
        made = gs(made=1)

        def put(x):
            return {**made, pl: ("c", x)} if pl is not None else None
        if m in ("len", "size_hint", "is_empty", "count"):
            outs = []
            for k in LENGTHS if g(env, "n") is None else (g(env, "n"),):
                l = len(staged(p[2:].split("|"), k)[1])
                outs.append(({(): ("c", l == 0)} if m == "is_empty" else {(): ("c", l)} if m != "size_hint" else {("0",): ("c", l), ("1",): ("v", "Some"), ("1", "Some.0"): ("c", l)}, gs(n=k, **({"made": 1}))))
            return outs
        if m in CHOOSING and len(A) == 2:
            clo = A[1].get(())
            if clo and clo[0] == "clo" and self.direction(clo[1], "choosing") == "by-item":
                return [({(): ("c", p + "|some")}, made)] if m not in ("retain", "retain_mut") else [({}, put(p + "|some"))] if pl is not None else None
            return None
        if m in ("next", "next_back", "pop"):
            x = p + ("|rev" if m != "next" else "")
            self.fetched.setdefault((x, g(env, "n")), n)
            return [({(): ("v", "Some"), ("Some.0",): ("c", "s:<item>")}, gs(item=1))]
        if m == "drain" and not re.search("RangeFull", targs + self.ty(frame, t["args"][1])):
            return None
        if m in SAME and (len(A) == 1 or m in ("index", "drain") and "RangeFull" in targs + self.ty(frame, t["args"][1])):
            if pl is not None and m in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "by_ref", "index", "index_mut", "as_deref"):
                return [({(): ("&", pl, True)}, put(p))]
            return [({(): ("c", p)}, made)]
        if m == "rev":
            return [({(): ("c", p + "|rev")}, made)]
        if m in ("skip", "take") and v[1] and v[1][0] == "c":
            return [({(): ("c", "%s|%s:%d" % (p, m, v[1][1]))}, made)]
        if m == "reverse" and pl is not None:
            return [({}, put(p + "|rev"))]
        if m == "split_off" and pl is not None and v[1] and v[1][0] == "c":
            return [({(): ("c", "%s|skip:%d" % (p, v[1][1]))}, put("%s|take:%d" % (p, v[1][1])))]
        if m == "truncate" and pl is not None and v[1] and v[1][0] == "c":
            return [({}, put("%s|take:%d" % (p, v[1][1])))]
        if SORTS.match(m) and pl is not None and len(A) == 2:
            key = None
            clo = A[1].get(())
            for k, x in A[1].items():
                if not k:
                    continue
                _, q = resolve(env, x)
                if q is not None and (q[0], q[1] + LEN) in env:
                    key = [text(env, i.get(())) for i in self.items(dict(under(env, q)))]
            how = self.direction(clo[1], m) if clo and clo[0] == "clo" else "?"
            if how == "?":
                return None
            return [({}, put("%s|%s:%s" % (p, how, "?" if key is None or None in key else ".".join(key))))]
        return None


def last_of(fn):
    return (fn or {}).get("path", "").rsplit("::", 1)[-1]


class Located(Tokens):
    """The world of error positions: where the file, line and column of an error that is returned come from."""
    depth = 1

    def __init__(self, F, own=SELF):
        super().__init__(F)
        self.own = own
        self.errors = {}
        self.moved = {}

    def start(self, G, env):
        env.update(gs(pos=0))
        env[(SELF, ("inner",))] = ("v", "Function")
        self.located(env, self.own, "own")

    @staticmethod
    def located(env, root, who):
        for f in ("path", "line", "column"):
            env[(root, (f,))] = ("c", "s:%s.%s" % (who, f))

    def free(self, G, n, v, pl, env):
        return True

    def opaque(self, G, n, fn, frame, t, env):
        return True

    def fetch(self, G, n, env):
        e = {(TOK, ()): None, **gs(pos=1)}
        out = [({(): ("v", "None")}, {})]
        for f in ("path", "line", "column"):
            e[(TOK, (f,))] = ("c", "s:next." + f)
        out.append(({(): ("v", "Some"), ("Some.0",): ("&", (TOK, ()), False)}, e))
        return out

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if m == "next" and "TokenIter" in targs + path:
            return self.fetch(G, n, env)
        if path.endswith("LocatableToken::process") or m == "execute" and trait.endswith("functions::Function"):
            err = {("Err.0", f): ("c", "s:theirs." + f) for f in ("path", "line", "column", "kind")}
            return [({(): ("v", "Ok")}, {}), ({(): ("v", "Err"), **err}, {})]
        if path.endswith("TokenIter::waypoint"):
            return [({(): ("c", g(env, "pos", 0))}, {})]
        if path.endswith("TokenIter::rewind_to") and v[1] and v[1][0] == "c":
            return [({}, gs(pos=v[1][1]))]
        if path == "core::convert::From::from" and "from_residual" in frame.body.path:
            return [(A[0], {})]
        return None

    def base(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path.endswith("LocatableToken::traceback"):
            return None
        if m in ("to_path_buf", "to_owned", "clone", "into", "from", "as_path", "deref", "as_ref", "into_boxed_path") and len(v) == 1:
            w, pl = resolve(env, v[0])
            if w and w[0] == "c" and (isinstance(w[1], int) and m == "clone"):
                return [({(): w}, {})]
            s = text(env, v[0])
            if s is not None:
                return [({(): ("c", "s:" + s)}, {})]
        return super().base(G, n, path, m, trait, targs, A, v, frame, t, env)

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if v and v[0] == "v" and v[1] == "Err":
            got = []
            for f in ("path", "line", "column"):
                w, _ = resolve(env, env.get(((0, 0), ("Err.0", f))))
                got.append(None if w is None or w[0] != "c" else w[1][2:] if isinstance(w[1], str) else str(w[1]))
            k, _ = resolve(env, env.get(((0, 0), ("Err.0", "kind"))))
            if k == ("c", "s:theirs.kind") and None not in got:
                self.moved.setdefault(tuple(got), n)
            self.errors.setdefault(tuple(got), (n, env))


class Parsing(Located):
    """The world of the template parser: where in the text the parser is, by the last thing it consumed.
    start: nothing yet; open: the braces that open a tag (and blanks); tag: part of a tag; close: the closing braces."""
    FRESH = ("open", "tag")

    def __init__(self, F, param, anyroot=False):
        super().__init__(F, SELF)
        self.param = param
        self.tokens = {}

    def start(self, G, env):
        b = G.root_body
        i = self.param
        env[(("P", i) if b.ty(i)["k"] in ("ref", "ptr") else (0, i), ())] = ("c", "s:own.path")

    def at(self, env, pl, where):
        return {(pl[0], pl[1] + ("line",)): ("c", "s:line@" + where), (pl[0], pl[1] + ("column",)): ("c", "s:column@" + where), **gs(at=where)}

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if "parse::parser::Parser::" in path and v and v[0] and v[0][0] == "&":
            _, pl = resolve(env, v[0])
            if pl is None:
                return None
            now = g(env, "at", "start")
            err = {(): ("v", "Err")}

            def failing(e):
                w, _ = resolve(env, env.get((pl[0], pl[1] + ("path",))))
                r = dict(err)
                if w:
                    r[("Err.0", "path")] = w
                for f in ("line", "column"):
                    if (pl[0], pl[1] + (f,)) in e:
                        r[("Err.0", f)] = e[(pl[0], pl[1] + (f,))]
                return r
            if m == "extract_until":
                e = self.at(env, pl, "open")
                return [({(): ("v", "Some")}, e), ({(): ("v", "None")}, self.at(env, pl, now))]
            if m in ("ignore_while",):
                return [({}, self.at(env, pl, now))]
            if m in ("extract_while", "extract_remaining"):
                return [({}, self.at(env, pl, "tag"))]
            if m == "expect" and len(v) == 2:
                x = text(env, v[1])
                e = self.at(env, pl, "close" if x == "}}" else "tag")
                f = self.at(env, pl, "tag")
                return [({(): ("v", "Ok")}, e), (failing(f), f)]
            if m == "next":
                e = self.at(env, pl, "tag")
                return [({(): ("v", "Ok")}, e), (failing(e), e)]
            if m == "peek":
                return [({}, {})]
        if path == "alloc::vec::Vec::push" and "LocatableToken" in targs and len(A) == 2:
            x = A[1]
            kind = x.get(("inner",))
            l = [reaches(env, x, (f,)) for f in ("path", "line", "column")]
            self.tokens.setdefault((kind[1] if kind and kind[0] == "v" else None,) + tuple(w[1][2:] if w and w[0] == "c" and isinstance(w[1], str) else None if w is None or w[0] != "c" else str(w[1]) for w in l), n)
            return [({}, {})]
        if m == "location" and "Parser" in path:
            return None
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if not v or v[0] != "v" or v[1] != "Err":
            return
        base = ("Err.0",)
        w = env.get(((0, 0), base))
        if w and w[0] == "v":
            if w[1] != "Parse":
                return
            base += ("Parse.0",)
        got = []
        for f in ("path", "line", "column"):
            w, _ = resolve(env, env.get(((0, 0), base + (f,))))
            got.append(None if w is None or w[0] != "c" else w[1][2:] if isinstance(w[1], str) else str(w[1]))
        self.errors.setdefault(tuple(got), (n, env))


class Whole(Located):
    """The world of a page: errors about the page as a whole name the page's own file."""

    def start(self, G, env):
        env.update(gs(pos=0))
        for var in ("File", "Directory"):
            for f in ("source", "name"):
                env[(("P", 1), ("%s.%s" % (var, f),))] = ("c", "s:own." + f)
        env[(("T", 0), ("path",))] = ("c", "s:a template's path")

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if m in ("first", "last", "get", "index", "next") and "LocatableToken" in targs and "TokenIter" not in targs + path:
            tok = ("&", (("T", 0), ()), False)
            return [({(): tok}, {})] if m == "index" else [({(): ("v", "None")}, {}), ({(): ("v", "Some"), ("Some.0",): tok}, {})]
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        if not v or v[0] != "v" or v[1] != "Err":
            return
        base = ("Err.0",)
        w = env.get(((0, 0), base))
        if w and w[0] == "v":
            if w[1] != "Process":
                return
            base += ("Process.0",)
        w, _ = resolve(env, env.get(((0, 0), base + ("path",))))
        self.errors.setdefault(None if w is None or w[0] != "c" else w[1][2:] if isinstance(w[1], str) else str(w[1]), (n, env))


class Chars(World):
    """The world of the character reader: the position counters, and the next character."""

    def __init__(self, F, state, char=None):
        super().__init__(F)
        self.state, self.char = state, char
        self.out = []

    def start(self, G, env):
        for k, v in self.state.items():
            env[(("P", 1), k)] = v

    def free(self, G, n, v, pl, env):
        return True

    def opaque(self, G, n, fn, frame, t, env):
        return True

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if m == "next" and "Chars" in targs + path:
            if self.char is None:
                return [({(): ("v", "None")}, {})]
            return [({(): ("v", "Some"), ("Some.0",): ("c", ord(self.char))}, {})]
        return None

    def exit(self, G, n, env):
        r = {k: x for k, x in under(env, ((0, 0), ())) if x[0] in ("c", "v")}
        s = {k: x for k, x in under(env, (("P", 1), ())) if x[0] == "c" and isinstance(x[1], int)}
        if (r, s) not in self.out:
            self.out.append((r, s))
