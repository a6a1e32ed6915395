"""Typestate analysis of the conditional functions on the exploded MIR graph: the outcome of the comparison (less, equal,
greater, not comparable) or of the lookup (absent, null, any other kind of value) is given, every class of token may
follow, and the tokens of the branch that the documentation names, and no others, must be processed; `else` must
switch. The operands of the comparison are traced to the positional arguments they were parsed from, and the
comparison of two values is decided for every pair of kinds."""
from .common import *
from world import *
from graph import Graph, TooBig
from facts import rv_ops, rv_places, op_place

CMP = {"ifeq": lambda r: r == "eq", "ifne": lambda r: r != "eq", "ifgt": lambda r: r == "gt", "ifge": lambda r: r in ("gt", "eq"), "iflt": lambda r: r == "lt", "ifle": lambda r: r in ("lt", "eq")}
OPS = {"eq": lambda r: r == "eq", "ne": lambda r: r != "eq", "gt": lambda r: r == "gt", "ge": lambda r: r in ("gt", "eq"), "lt": lambda r: r == "lt", "le": lambda r: r in ("lt", "eq")}
# kinds of values, with contents (an empty and a non-empty list stand as an empty and a non-empty text)
SAMPLES = [("Null", None), ("Bool", True), ("Bool", False), ("Number", None), ("String", "s:"), ("String", "s:x"), ("Array", "s:"), ("Array", "s:x"), ("Object", "s:"), ("Object", "s:x")]
KINDS = ("Variable", "String", "Number", "Null", "Bool", "Array", "Object")
FLIP = {"lt": "gt", "gt": "lt"}


class IfWorld(Block):
    def __init__(self, F, expected, table):
        super().__init__(F)
        self.expected, self.table = expected, table

    def armed(self, env):
        return g(env, "cond") is not None or super().armed(env)

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if path.endswith("Scope::get_variable"):
            d = t["dest"]
            outs = [({(): ("v", "None")}, self.found(None))]
            for k, x in SAMPLES if self.table is None else [(k, None) for k in KINDS if k != "Variable"]:
                outs.append(({(): ("v", "Some"), ("Some.0",): ("v", k), **({("Some.0", k + ".0"): ("c", x)} if x is not None else {})}, self.found(k)))
            return outs
        sw = self.table.get((frame.body.id, n.bb)) if self.table else None
        if sw is not None and (m in OPS or m == "partial_cmp"):
            outs = []
            for rel in ("lt", "eq", "gt", "none"):
                r = FLIP.get(rel, rel) if sw else rel
                if m in OPS:
                    sub = {(): ("c", OPS[m](r))}
                else:
                    sub = {(): ("v", "None")} if r == "none" else {(): ("v", "Some"), ("Some.0",): ("v", {"lt": "Less", "eq": "Equal", "gt": "Greater"}[r])}
                outs.append((sub, gs(cond=self.expected(rel))))
            return outs
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def found(self, kind):
        return gs(cond=self.expected(kind)) if self.table is None else {}

    def forget(self, env):
        # what the operands were does not matter any more: only the outcome does
        gone = {k: None for k, v in env.items() if v and v[0] == "v" and v[1] in KINDS and k[0] not in (TOK, SELF, W)}
        return {**gone, **super().forget(env)}


def run(F, rep, tier):
    conditionals(F, rep)
    values(F, rep)


def conditionals(F, rep, only=None):
    for name, (pb, eb) in functions(F).items():
        if name in CMP and eb is not None:
            compare(F, rep, name, pb, eb, only)
        if name == "ifdefined" and eb is not None:
            judge(F, rep, name, eb, IfWorld(F, lambda k: k not in (None, "Null"), None), only)


def compare(F, rep, name, pb, eb, only=None):
    order = operands(F, pb) if pb is not None else {}
    table = {}
    taint = Taint(F, eb, set(order))
    for fr, i, t, fn in taint.calls():
        m = last(fn.get("path", ""))
        if (m in OPS or m == "partial_cmp") and fn.get("trait", "").startswith("core::cmp::Partial") and len(t["args"]) == 2:
            fs = [taint.operand(fr, x) - {""} for x in t["args"]]
            if all(len(x) == 1 for x in fs):
                k = [order[next(iter(x))] for x in fs]
                if sorted(k) == [0, 1]:
                    table[(fr.body.id, i)] = k == [1, 0]
    if not table:
        rep.ok("operands", loc(eb), "`%s`: comparison not recognised; not decided" % name)
        return
    rep.ok("operands", loc(eb), "`%s` compares its first and second argument (%d comparisons)" % (name, len(table)))
    judge(F, rep, name, eb, IfWorld(F, CMP[name], table), only)


class Taint:
    """Which fields of the executed function a value may derive from (flow-insensitive, per frame)."""

    def __init__(self, F, eb, fields):
        self.g = Graph(F, eb, inline=lambda x, f: page_opaque(x, f) and x.krate == "stuart_core")
        self.fields = fields
        self.t = {((0, 1)): {""}}
        todo = True
        while todo:
            todo = False
            for fr in self.g.frames:
                if fr.parent is not None and fr.kind == "call":
                    pt = fr.parent.body.blocks[fr.call[0]]["t"]
                    for i, x in enumerate(pt["args"]):
                        todo |= self.add(fr, i + 1, self.operand(fr.parent, x) if not self.skip(fr.parent, x) else set())
                for bl in fr.body.blocks:
                    for s in bl["st"]:
                        if s["k"] == "assign":
                            todo |= self.add(fr, s["p"][0], self.rvalue(fr, s["r"]))
                    t = bl["t"]
                    if t["k"] == "call":
                        todo |= self.add(fr, t["dest"][0], set().union(*(self.operand(fr, x) for x in t["args"] if not self.skip(fr, x))))

    def add(self, fr, l, s):
        old = self.t.setdefault((fr.id, l), set())
        if s <= old:
            return False
        old |= s
        return True

    def skip(self, fr, o):
        p = op_place(o)
        if p is None:
            return True
        ty = fr.body.types[fr.body.locals[p[0]]["ty"]]["s"]
        return "closure" in ty or ty.startswith("&mut") and "process::Scope" in ty

    def rvalue(self, fr, r):
        if r["k"] == "agg" and r.get("a") == "closure":
            return set()
        out = set()
        for o in rv_ops(r):
            out |= self.operand(fr, o)
        for p in rv_places(r):
            out |= self.place(fr, p)
        return out

    def operand(self, fr, o):
        p = op_place(o)
        return set() if p is None else self.place(fr, p)

    def place(self, fr, p):
        s = self.t.get((fr.id, p[0]), set())
        if "" in s:
            fs = [x[2] for x in p[1] if x[0] == "f"]
            if fs:
                s = (s - {""}) | ({fs[0]} & self.fields)
        return s

    def calls(self):
        for fr in self.g.frames:
            for i, bl in enumerate(fr.body.blocks):
                t = bl["t"]
                if t["k"] == "call" and t["f"]["k"] == "const" and t["f"].get("fn"):
                    yield fr, i, t, t["f"]["fn"]


def operands(F, pb):
    """{field: positional index} of the operands stored by the parser."""
    a = An(F, pb)
    out = {}
    for e in a.exits():
        for x in walk(ret(a, e)):
            if x[0] != "agg":
                continue
            for f, val in x[2]:
                ix = {position(y) for y in walk(val)} - {None}
                if len(ix) == 1 and re.match(r"[a-z]", f or ""):
                    out.setdefault(f, set()).update(ix)
    return {f: next(iter(s)) for f, s in out.items() if len(s) == 1}


def position(t):
    """The positional argument (of two) a term denotes: args[i], the k-th pop, the k-th item of an iteration."""
    if t[0] == "index" and t[1][0] == "field" and t[1][2] == "positional_args" and isinstance(t[2], tuple) and t[2][0] == "const":
        return t[2][1]
    if t[0] == "call" and t[2] and last(t[1]) in ("pop", "next_back", "next", "remove", "swap_remove"):
        n = taken(t[2][0])
        if n is None:
            return None
        if last(t[1]) in ("pop", "next_back"):
            return 1 - n
        if last(t[1]) == "next":
            return n
        i = t[2][1] if len(t[2]) > 1 else ("?",)
        return i[1] + n if i[0] == "const" and i[1] == 0 else i[1] if i[0] == "const" else None
    return None


def taken(t):
    """How many elements were taken from the argument list before."""
    if t[0] == "field" and t[2] == "positional_args":
        return 0
    if t[0] == "phi":
        base = [x for x in t[1] if x[0] == "field" and x[2] == "positional_args"]
        upd = [x for x in t[1] if x[0] == "upd" and last(x[1]) in ("pop", "next", "next_back", "remove", "swap_remove")]
        if base and len(base) + len(upd) == len(t[1]):
            return len(upd)
    return None


def judge(F, rep, name, eb, w, only=None):
    """Explore the states of the function under the model, and report the violations whose key matches."""
    w.fname = name
    whole = explore(F, rep, eb, w)
    found = {k: v for k, v in w.violations.items() if only is None or re.match(only, k)}
    for k, (n, d) in sorted(found.items()):
        rep.bad("typestate", "%s/%s" % (name, k), n.loc(), "`%s`: %s" % (name, d))
    if not found and whole:
        rep.ok("typestate", loc(eb), "`%s`: every stream of tokens is treated as documented (%d points not decided)" % (name, len(w.undecided)))


INPUT = "stuart_core::functions::Input"
ALTER = re.compile(r"(to_\w*case|trim\w*|round|floor|ceil|trunc|abs|abs_sub|signum|to_bits|len|count|eq_ignore_ascii_case|chars|parse|is_empty|to_int\w*)$")


def values(F, rep):
    """The comparison of two evaluated operands, and their evaluation, for every pair of kinds."""
    kinds = [v for v in F.variants(INPUT)] if INPUT in F.adts else []
    if not kinds:
        rep.ok("values", "-", "the operands' type is not recognised; not decided")
        return
    for b in F.bodies.values():
        if b.krate != "stuart_core":
            continue
        if re.match(r"<%s as core::cmp::Partial(Eq|Ord)(<.*>)?>::(eq|partial_cmp)$" % INPUT, b.path):
            pairs(F, rep, b)
        elif b.kind == "fn" and re.search(r"Option<[\w:]*Input>$", b.types[b.locals[0]["ty"]]["s"]):
            evaluation(F, rep, b)


def kind(facts, t):
    v = {f[2] for f in facts if f[0] == "variant" and f[1] == t and f[3]}
    return next(iter(v)) if len(v) == 1 else None


def pairs(F, rep, b):
    a = An(F, b, inline=page_opaque)
    rep.saw_graph(a)
    what = last(b.path)
    x, y = params(b)[:2]
    found = {}
    for e in a.exits():
        facts = a.facts_at(e)
        k = (kind(facts, x), kind(facts, y))
        for t in alts(ret(a, e)):
            if k[0] and k[1] and k[0] != k[1] and "Variable" not in k:
                if what == "eq" and t == ("const", True):
                    rep.bad("values", "mixed/%s/%s" % k, e.loc(), "a %s is equal to a %s" % k)
            elif k[0] == k[1] and k[0] in ("String", "Number"):
                found.setdefault(k[0], []).append((e, t))
    for k in ("String", "Number"):
        if k not in found:
            out = compatible(a, {x: k, y: k})
            if len(out) == 1 and (out[0][0] == "const" or out[0][0] == "agg" and not out[0][2]):
                rep.bad("values", "constant/%s/%s" % (what, k), loc(b), "%s: the result does not depend on the two %s values" % (what, k))
    for k, l in sorted(found.items()):
        px, py = ("field", x, k + ".0"), ("field", y, k + ".0")
        good = {("bin", "Eq", px, py), ("bin", "Eq", py, px)} if what == "eq" else {("call", "core::cmp::PartialOrd::partial_cmp", (px, py))}
        if k in ("String", "Number"):
            if any(t in good for _, t in l):
                rep.ok("values", loc(b), "%s: two %s values are compared by their contents" % (what, k))
            elif what == "partial_cmp" and any(t == ("call", "core::cmp::PartialOrd::partial_cmp", (py, px)) for _, t in l):
                rep.bad("values", "order/" + k, loc(b), "the order of two %s values is reversed" % k)
            elif all(t[0] == "const" or t[0] == "agg" and not t[2] for _, t in l) and len({t for _, t in l}) == 1:
                rep.bad("values", "constant/%s/%s" % (what, k), loc(b), "%s: the result does not depend on the two %s values" % (what, k))
            elif any(altered(z) for _, t in l for z in walk(t)):
                rep.bad("values", "altered/%s/%s" % (what, k), loc(b), "%s: something else than the two %s values themselves is compared" % (what, k))
            else:
                rep.ok("values", loc(b), "%s of two %s values: not decided" % (what, k))


def compatible(a, kinds):
    """What is returned where the facts do not contradict these kinds of values."""
    def wrong(n, m, lab):
        return any(f[0] == "variant" and f[1] in kinds and (f[2] == kinds[f[1]]) != f[3] for f in a.atoms(n, m, lab))
    r = a.reach([a.g.entry], stop_edge=wrong)
    return sorted({t for e in a.exits() if e.id in r for t in alts(ret(a, e))}, key=str)


def altered(z):
    return z[0] == "call" and ALTER.search(z[1]) or z[0] == "bin" and z[1] in ("Sub", "Add", "Rem", "Div") or z[0] == "cast" and "FloatToInt" in str(z[1])


def evaluation(F, rep, b):
    a = An(F, b, inline=lambda x, f: page_opaque(x, f) and not x.path.endswith("Scope::get_variable"))
    rep.saw_graph(a)
    made(F, rep, a)
    for e in a.exits():
        for t in alts(ret(a, e)):
            if t[0] != "agg" or not t[2]:
                continue
            for u in alts(t[2][0][1]):
                if u[0] == "agg" and u[1].startswith(INPUT + "::") and u[2]:
                    k = last(u[1])
                    if k == "Variable":
                        continue
                    for z in alts(u[2][0][1]):
                        if z[0] == "field" and re.match(r"(String|Number|Bool|Array|Object|Variable)\.0$", z[2]) and z[2] != k + ".0":
                            rep.bad("evaluation", "%s-from-%s" % (k, z[2][:-2]), e.loc(), "a value of kind %s is compared as a %s" % (z[2][:-2], k))
                        elif z[0] == "const" or altered(z) or z[0] == "field" and altered(z[1]):
                            rep.bad("evaluation", "%s-changed" % k, e.loc(), "the %s that is compared is not the one that was given" % k)
                        else:
                            rep.ok("evaluation", e.loc(), "%s operand: %s" % (k, "own contents" if z[0] == "field" else "not decided"))


def made(F, rep, a):
    """Where an operand of some kind is made of a value which is known to be of another kind."""
    for n in a.g.nodes:
        for i, s in enumerate(n.frame.body.blocks[n.bb]["st"]):
            if s["k"] != "assign" or s["r"]["k"] != "agg":
                continue
            t = a.T.rvalue(n, i, s["r"], frozenset())
            if t[0] == "agg" and t[1].startswith(INPUT + "::") and last(t[1]) in ("String", "Number"):
                other = seen(a, n) - {last(t[1])}
                if other and last(t[1]) not in seen(a, n):
                    rep.bad("evaluation", "%s-from-%s" % (last(t[1]), "+".join(sorted(other))), n.loc(), "a value of kind %s is compared as a %s" % ("/".join(sorted(other)), last(t[1])))


def seen(a, e):
    """The kinds which the variable's value is known to have at this exit."""
    return {f[2] for f in a.facts_at(e) if f[0] == "variant" and f[3] and f[2] in KINDS[1:] and f[1] != ("param", 1, "self") and uses(f[1], lambda y: y[0] == "call" and last(y[1]) == "get_variable")}


def explore(F, rep, eb, w):
    """Run the function under the model; None if there are too many states."""
    try:
        G = Graph(F, eb, world=w, widen=20000, max_nodes=60000)
    except TooBig:
        rep.ok("typestate", loc(eb), "too many states; not decided")
        return None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate in ("stuart", "stuart_core")})
    return w
