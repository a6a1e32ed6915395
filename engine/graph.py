"""Interprocedural abstract interpretation over MIR.

From one root body a supergraph is built on the fly: calls that resolve to a body we hold (workspace functions,
closures, and the std Option/Result combinators) are entered, everything else is opaque.  The abstract state of a
node holds only constants, enum variants, closure identities and addresses of places (a finite lattice: every value
comes from the program text), so the analysis is a plain dataflow fixpoint, split by state (property simulation)
and widened per program point when it splits too often.  No solver is involved and nothing is executed.

A place is (root, proj): root = (frame, local), or ('P', i) for what the i-th parameter of the root body points to;
proj = tuple of '*', 'name', 'Variant.name', '[]', '[k]'.
"""
import sys
from collections import deque
from facts import is_dropflag_set, rv_ops, op_place

sys.setrecursionlimit(20000)

WIDEN = 160         # distinct states per program point before they are merged
MAX_NODES = 150000


class _Fn:
    """Hashable wrapper of a callee record."""
    __slots__ = ("j", "key")

    def __init__(self, j):
        self.j = j
        self.key = (j.get("resid") or j["id"], tuple(j.get("targs") or ()))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, _Fn) and self.key == o.key


def last(p):
    return p.rsplit("::", 1)[-1]


class TooBig(Exception):
    pass


class Frame:
    __slots__ = ("id", "body", "parent", "call", "depth", "hof", "kind")

    def __init__(self, id, body, parent, call, depth, hof=None, kind="call"):
        self.id, self.body, self.parent, self.call, self.depth, self.hof, self.kind = id, body, parent, call, depth, hof, kind

    def chain(self):
        f = self
        while f is not None:
            yield f
            f = f.parent

    def __repr__(self):
        return "<F%d %s>" % (self.id, self.body.path)


class XNode:
    """A program point of the exploded graph: a basic block of one inlined frame, in one abstract state.
    kind: 'b' block entry; 'h' the loop head of an opaque higher-order call that may run its closure."""
    __slots__ = ("id", "frame", "bb", "kind", "env", "succ", "pred", "tenv", "info", "call")

    def __init__(self, id, frame, bb, kind, env):
        self.id, self.frame, self.bb, self.kind, self.env = id, frame, bb, kind, env
        self.succ, self.pred = [], []       # (xnode, label)
        self.tenv = None                    # env just before the terminator
        self.info = None
        self.call = None

    @property
    def body(self):
        return self.frame.body

    @property
    def block(self):
        return self.frame.body.blocks[self.bb]

    @property
    def term(self):
        return self.frame.body.blocks[self.bb]["t"]

    def loc(self):
        sp = self.term["sp"]
        return "%s:%d" % (sp[0], sp[1])

    def __repr__(self):
        return "<X%d %s bb%d %s>" % (self.id, self.frame.body.path, self.bb, self.kind)


def under(env, place):
    """Entries of env at or below place: [(suffix, val)]."""
    root, proj = place
    n = len(proj)
    return [(k[1][n:], v) for k, v in env.items() if k[0] == root and k[1][:n] == proj]


def kill(env, place):
    root, proj = place
    n = len(proj)
    for k in [k for k in env if k[0] == root and k[1][:n] == proj]:
        del env[k]
    # addresses that lead through the overwritten place no longer mean anything
    for k in [k for k, v in env.items() if v[0] in ("&", "d") and v[1][0] == root and len(v[1][1]) > n
              and v[1][1][:n] == proj and "*" in v[1][1][n:]]:
        del env[k]
    for k in [k for k, v in env.items() if v[0] == "d" and v[1][0] == root and v[1][1][:n] == proj]:
        del env[k]
    # a whole enum value is changed when a part of it is replaced by an unknown one: keep variants above


class Graph:
    def __init__(self, facts, root, inline=None, max_depth=14, hof=True, root_env=None, widen=WIDEN, max_nodes=MAX_NODES, world=None):
        self.facts = facts
        self.world = world          # model of the environment of the analysed function (see world.py)
        self.root_body = root
        self.inline = inline or (lambda body, frame: True)
        self.max_depth = max_depth
        self.hof_on = hof
        self.widen = widen
        self.max_nodes = max_nodes
        self.frames = []
        self.frame_ix = {}
        self.nodes = []
        self.index = {}
        self.count = {}
        self.widened = {}
        self.merged = 0
        self.work = deque()
        self.f0 = self._frame(root, None, None)
        env = {}
        for i in range(1, root.argc + 1):
            t = root.ty(i)
            if t["k"] in ("ref", "ptr"):
                env[((0, i), ())] = ("&", (("P", i), ()), t.get("mut", False))
        if root_env:
            env.update(root_env(self))
        if world:
            world.start(self, env)
        self.entry = self._node(self.f0, 0, "b", env)
        self._run()

    # ------------------------------------------------------------ frames and nodes
    def _frame(self, body, parent, callkey, hof=None, kind="call"):
        key = (parent.id if parent else None, callkey, body.id, kind)
        f = self.frame_ix.get(key)
        if f is None:
            f = Frame(len(self.frames), body, parent, callkey, (parent.depth + 1) if parent else 0, hof, kind)
            self.frames.append(f)
            self.frame_ix[key] = f
        return f

    def live(self, body):
        if body._live is None:
            body._live = compute_live(body)
        return body._live[0], body._live[1]

    def _prune(self, frame, bb, env):
        live, addr = self.live(frame.body)
        lv = live[bb]
        fid = frame.id
        df = is_dropflag_set(frame.body)
        for k in [k for k in env if k[0][0] == fid and ((k[0][1] not in lv and k[0][1] not in addr) or k[0][1] in df)]:
            del env[k]

    def _node(self, frame, bb, kind, env):
        if kind == "b":
            self._prune(frame, bb, env)
        pt = (frame.id, bb, kind)
        key = (pt, frozenset(env.items()))
        n = self.index.get(key)
        if n is not None:
            return n
        c = self.count.get(pt, 0)
        if c >= self.widen:
            # widen: keep only what all further states share
            w = self.widened.get(pt)
            if w is None:
                base = dict(env)
            else:
                base = {k: v for k, v in w.items() if env.get(k) == v}
            self.widened[pt] = base
            self.merged += 1
            env = dict(base)
            key = (pt, frozenset(env.items()))
            n = self.index.get(key)
            if n is not None:
                return n
        n = XNode(len(self.nodes), frame, bb, kind, dict(env))
        if len(self.nodes) > self.max_nodes:
            raise TooBig("%s: more than %d nodes" % (self.root_body.path, self.max_nodes))
        self.nodes.append(n)
        self.index[key] = n
        self.count[pt] = c + 1
        self.work.append(n)
        return n

    # ------------------------------------------------------------ places and operands
    def place(self, frame, p, env):
        """Resolve a MIR place in `frame` under `env`."""
        root, proj = (frame.id, p[0]), ()
        els = p[1]
        i, n = 0, len(els)
        pend = None
        while i < n:
            e = els[i]
            if e == "*":
                v = env.get((root, proj))
                if v is not None and v[0] == "&":
                    root, proj = v[1]
                else:
                    proj = proj + ("*",)
            elif e == "?":
                pass
            else:
                k = e[0]
                if k == "f":
                    if e[2] == "0" and i + 1 < n and isinstance(els[i + 1], list) and els[i + 1][0] == "f" and els[i + 1][2] == "pointer":
                        i += 2          # Box internals
                        if i < n and isinstance(els[i], list) and els[i][0] == "f" and els[i][2] == "pointer":
                            i += 1
                        continue
                    proj = proj + ((pend + "." + e[2]) if pend else e[2],)
                    pend = None
                elif k == "v":
                    pend = e[2] or str(e[1])
                elif k == "i":
                    v = env.get(((frame.id, e[1]), ()))
                    proj = proj + (("[%d]" % v[1],) if v and v[0] == "c" and isinstance(v[1], int) else ("[]",))
                elif k == "ci":
                    proj = proj + ("[%s%d]" % ("-" if e[2] else "", e[1]),)
                elif k == "ss":
                    proj = proj + ("[..]",)
            i += 1
        return (root, proj)

    def const_val(self, o):
        if "fn" in o:
            return ("fn", _Fn(o["fn"]))
        for k in ("bool", "int", "char"):
            if k in o:
                return ("c", o[k])
        if "str" in o:
            return ("c", "s:" + o["str"])
        if "variant" in o:
            return ("v", o["variant"])
        if "bytes" in o and self.world:
            return ("b", tuple(o["bytes"]))
        return None

    def promoted(self, b, ix):
        """{suffix: value} of a promoted constant (used with a world only)."""
        from terms import Terms

        def conv(t, at, out):
            if t[0] == "const":
                out[at] = ("c", "s:" + t[1] if isinstance(t[1], str) else t[1])
            elif t[0] == "agg":
                if "::" in t[1] and self.facts.adts.get(t[1].rsplit("::", 1)[0], {}).get("kind") == "enum" or last(t[1]) in ("Some", "None", "Ok", "Err"):
                    out[at] = ("v", last(t[1]))
                for i, (f, x) in enumerate(t[2]):
                    conv(x, at + (f if f is not None else "[%d]" % i,), out)
        out = {}
        conv(Terms(self).promoted(b, ix), (), out)
        return out

    def read_op(self, frame, o, env):
        """{suffix: value} of an operand."""
        p = op_place(o)
        if p is None:
            if o["k"] == "const":
                v = self.const_val(o)
                if v is None and "ty" in o:
                    t = frame.body.types[o["ty"]]
                    if t["k"] == "closure":
                        v = ("clo", t["def"])
                if v is None and self.world is not None and "static" in o:
                    v = ("&", (("STATIC", o["id"]), ()), False)
                if v is None and self.world is not None and "promoted" in o and o.get("of") in self.facts.bodies:
                    return self.promoted(self.facts.bodies[o["of"]], o["promoted"])
                return {(): v} if v else {}
            return {}
        return dict(under(env, self.place(frame, p, env)))

    def write(self, env, place, sub):
        kill(env, place)
        root, proj = place
        for s, v in sub.items():
            env[(root, proj + s)] = v

    def stmt(self, frame, s, env):
        k = s["k"]
        if k == "dead":
            l = (frame.id, s["l"])
            for key in [key for key, v in env.items() if key[0] == l or (v[0] in ("&", "d") and v[1][0] == l)]:
                del env[key]
            return
        if k == "setdiscr":
            return
        if k != "assign":
            return
        r = s["r"]
        dst = self.place(frame, s["p"], env)
        rk = r["k"]
        sub = {}
        if rk == "use":
            sub = self.read_op(frame, r["o"], env)
            if r["o"]["k"] == "move":
                kill(env, self.place(frame, r["o"]["p"], env))
        elif rk == "ref":
            sub = {(): ("&", self.place(frame, r["p"], env), bool(r.get("mut")))}
            if self.world is not None and r["p"][1] == ["*"]:
                v = env.get(((frame.id, r["p"][0]), ()))
                if v and v[0] == "c" and isinstance(v[1], str):
                    sub = {(): v}       # a reborrowed string slice
        elif rk == "cast":
            ck = r["ck"]
            o = r["o"]
            if ck == "BoxDerefTransmute" and o.get("p") and o["p"][1] and o["p"][1][-1][0] == "f":
                o = dict(o, p=[o["p"][0], o["p"][1][:-1]])
            sub = self.read_op(frame, o, env)
            if ck.startswith("IntToInt"):
                v = sub.get(())
                sub = {(): v} if v and v[0] == "c" and isinstance(v[1], int) else {}
            elif ck.startswith("FloatToInt") or ck.startswith("IntToFloat"):
                v = sub.get(())
                num = v and v[0] == "c" and isinstance(v[1], (int, float))
                sub = {(): ("c", (int if ck.startswith("Float") else float)(v[1]))} if num and abs(v[1]) < 2 ** 31 else {}
            elif ck.startswith("PointerCoercion(ReifyFnPointer") or ck.startswith("PointerCoercion(ClosureFnPointer"):
                pass
            elif not ("PtrToPtr" in ck or "PointerCoercion" in ck or "Transmute" in ck or "Subtype" in ck):
                sub = {}
        elif rk == "discr":
            pl = self.place(frame, r["p"], env)
            v = env.get(pl)
            t = frame.body.types[r["ty"]]
            adt = t.get("path")
            if v and v[0] == "v":
                a = self.facts.adts.get(adt)
                d = [x["discr"] for x in a["variants"] if x["name"] == v[1]] if a else []
                if d:
                    sub = {(): ("c", d[0])}
                else:
                    sub = {(): ("d", pl, adt)}
            else:
                sub = {(): ("d", pl, adt)}
        elif rk == "agg":
            if r["a"] == "adt":
                a = self.facts.adts.get(r["path"])
                isenum = a and a["kind"] == "enum"
                pre = (r["variant"] + ".") if isenum else ""
                if isenum:
                    sub[()] = ("v", r["variant"])
                for f, o in zip(r["fields"], r["ops"]):
                    for sfx, v in self.read_op(frame, o, env).items():
                        sub[(pre + f,) + sfx] = v
            elif r["a"] in ("tuple", "closure", "array"):
                if r["a"] == "closure":
                    sub[()] = ("clo", r["def"])
                for i, o in enumerate(r["ops"]):
                    key = "[%d]" % i if r["a"] == "array" else str(i)
                    for sfx, v in self.read_op(frame, o, env).items():
                        sub[(key,) + sfx] = v
        elif rk == "bin":
            a = self.read_op(frame, r["a"], env).get(())
            b = self.read_op(frame, r["b"], env).get(())
            if a and b and a[0] == "c" and b[0] == "c" and not isinstance(a[1], str):
                x, y = a[1], b[1]
                try:
                    f = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(r["op"])
                    if f is not None:
                        sub = {(): ("c", f)}
                    elif self.world and r["op"].startswith(("Add", "Sub")) and 0 <= (w := x + y if r["op"][0] == "A" else x - y) <= 8:
                        sub = {("0",): ("c", w), ("1",): ("c", False)} if r["op"].endswith("Overflow") else {(): ("c", w)}
                    elif r["op"] == "BitAnd" and isinstance(x, bool):
                        sub = {(): ("c", x and y)}
                    elif r["op"] == "BitOr" and isinstance(x, bool):
                        sub = {(): ("c", x or y)}
                except TypeError:
                    pass
        elif rk == "un":
            a = self.read_op(frame, r["o"], env).get(())
            if r["op"] == "Not" and a and a[0] == "c" and isinstance(a[1], bool):
                sub = {(): ("c", not a[1])}
        self.write(env, dst, sub)
        if self.world is not None and rk == "agg" and r["a"] == "array":
            self.world.array(frame, s, env)

    # ------------------------------------------------------------ exploration
    def _run(self):
        while self.work:
            n = self.work.popleft()
            self._step(n)

    def _step(self, n):
        env = dict(n.env)
        frame, body = n.frame, n.frame.body
        if n.kind == "h":
            return self._hof_head(n, env)
        blk = body.blocks[n.bb]
        for s in blk["st"]:
            self.stmt(frame, s, env)
        n.tenv = dict(env)
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            self.edge(n, self._node(frame, t["t"], "b", env))
        elif k == "assert":
            self.edge(n, self._node(frame, t["t"], "b", env))
        elif k == "switch":
            self._switch(n, t, env)
        elif k == "return":
            self._return(n, env)
        elif k == "call":
            self._call(n, t, env)

    def _switch(self, n, t, env):
        frame = n.frame
        d = t["d"]
        p = op_place(d)
        if p is None:
            v = self.const_val(d)
            key = None
        else:
            pl = self.place(frame, p, env)
            v = env.get(pl)
            if v is None and not p[1] and p[0] in is_dropflag_set(frame.body):
                pl = None
        if v and v[0] == "c" and not isinstance(v[1], str):
            x = int(v[1])
            for val, b in t["targets"]:
                if val == x or x < 0 and val in (x + 256, x + 65536):
                    self.edge(n, self._node(frame, b, "b", env), ("const", val))
                    return
            self.edge(n, self._node(frame, t["otherwise"], "b", env), ("const", None))
            return
        tys = frame.body.types[t["dty"]]["s"]
        if self.world is not None and not (v is None and p is not None and pl is None) and not self.world.free(self, n, v, None if p is None else pl, env):
            return
        if v and v[0] == "d":
            dp, adt = v[1], v[2]
            seen = []
            allv = self.facts.variants(adt)
            for val, b in t["targets"]:
                name = self.facts.variant_of(adt, val)
                seen.append(name)
                e2 = dict(env)
                if name:
                    e2[dp] = ("v", name)
                self.edge(n, self._node(frame, b, "b", e2), ("variant", dp, name, adt))
            rest = [x for x in allv if x not in seen]
            if allv and not rest:
                return
            if frame.body.blocks[t["otherwise"]]["t"]["k"] == "unreachable":
                return
            e2 = dict(env)
            if len(rest) == 1:
                e2[dp] = ("v", rest[0])
                self.edge(n, self._node(frame, t["otherwise"], "b", e2), ("variant", dp, rest[0], adt))
            else:
                self.edge(n, self._node(frame, t["otherwise"], "b", e2), ("notvariants", dp, tuple(seen), adt, tuple(rest)))
            return
        for val, b in t["targets"]:
            e2 = dict(env)
            if p is not None and pl is not None:
                e2[pl] = ("c", bool(val) if tys == "bool" else val)
            self.edge(n, self._node(frame, b, "b", e2), ("val", val))
        if frame.body.blocks[t["otherwise"]]["t"]["k"] == "unreachable":
            return
        e2 = dict(env)
        vals = [x[0] for x in t["targets"]]
        if tys == "bool" and vals == [0] and p is not None and pl is not None:
            e2[pl] = ("c", True)
        self.edge(n, self._node(frame, t["otherwise"], "b", e2), ("notvals", tuple(vals)))

    def _return(self, n, env):
        frame = n.frame
        if frame.parent is None:
            n.info = "exit"
            if self.world is not None:
                self.world.exit(self, n, env)
            return
        par, (cbb, ctgt) = frame.parent, frame.call
        ret = dict(under(env, ((frame.id, 0), ())))
        self._leave(env, frame)
        if frame.kind == "hof":
            h = self._node(par, cbb, "h", env)
            self.edge(n, h, ("hofret",))
            return
        if ctgt is None:
            return
        t = par.body.blocks[cbb]["t"]
        dst = self.place(par, t["dest"], env)
        ret = {s: v for s, v in ret.items() if not (v[0] in ("&", "d") and v[1][0][0] == frame.id)}
        self.write(env, dst, ret)
        self.edge(n, self._node(par, ctgt, "b", env), ("ret",))

    def _leave(self, env, frame):
        fid = frame.id
        for k in [k for k, v in env.items() if k[0][0] == fid or (v[0] in ("&", "d") and v[1][0][0] == fid)]:
            del env[k]

    def _havoc(self, env, frame, args):
        """Forget what an opaque call may change through the &mut arguments it was given."""
        todo, seen = [], set()
        for a in args:
            for sfx, v in self.read_op(frame, a, env).items():
                if v[0] == "&" and v[2]:
                    todo.append(v[1])
        touched = []
        while todo:
            pl = todo.pop()
            if pl in seen:
                continue
            seen.add(pl)
            touched.append(pl)
            for sfx, v in under(env, pl):
                if v[0] == "&" and v[2]:
                    todo.append(v[1])
            root, proj = pl
            keep = {}
            # addresses held in the touched place stay what they are (references are not reseated by callees)
            for k in [k for k in env if k[0] == root and k[1][:len(proj)] == proj]:
                if env[k][0] != "&":
                    del env[k]
            # enum variant facts above stay
        return touched

    def callee(self, frame, t, env):
        """(Body or None, path, fn json or None, closure place or None, spread)"""
        f = t["f"]
        fn = None
        if f["k"] == "const" and "fn" in f:
            fn = f["fn"]
        else:
            v = self.read_op(frame, f, env).get(())
            if v and v[0] == "fn":
                fn = v[1].j
            elif v and v[0] == "clo":
                return self.facts.bodies.get(v[1]), None, None, "direct"
            if fn is None:
                return None, "<indirect>", None, None
        path = fn["path"]
        if path in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call"):
            a0 = t["args"][0]
            v = self.read_op(frame, a0, env).get(())
            n = 0
            while v and v[0] == "&" and n < 4:
                v = env.get(v[1])
                n += 1
            if v and v[0] == "clo":
                return self.facts.bodies.get(v[1]), None, fn, "closure"
            if v and v[0] == "fn":
                g = v[1].j
                b = self.facts.bodies.get(g.get("resid") or g["id"])
                return b, g.get("res") or g["path"], g, "fnitem"
            rid = fn.get("resid")
            b = self.facts.bodies.get(rid) if rid else None
            if b is not None and b.kind == "closure":
                return b, None, fn, "closure"
            return None, path, fn, None
        b = self.facts.bodies.get(fn.get("resid") or "") or (self.facts.bodies.get(fn["id"]) if not fn.get("trait") else None)
        return b, fn.get("res") or fn.get("virtual") or path, fn, None

    def may_inline(self, body, frame):
        if frame.depth >= self.max_depth:
            return False
        for f in frame.chain():
            if f.body is body:
                return False
        if body.krate in ("core", "alloc", "std"):
            return True
        return self.inline(body, frame)

    def _call(self, n, t, env):
        frame = n.frame
        body, path, fn, mode = self.callee(frame, t, env)
        n.call = (path if path else body.path, fn, body)
        tgt = t["t"]
        if self.world is not None:
            outs = self.world.call(self, n, n.call[0], fn, frame, t, env)
            if outs is not None:
                for sub, ghosts in outs:
                    if tgt is None:
                        continue
                    e2 = dict(env)
                    self._moved(frame, t, e2)
                    self.write(e2, self.place(frame, t["dest"], e2), sub)
                    for k, v in ghosts.items():
                        if v is None:
                            kill(e2, (k, ()) if isinstance(k[0], str) else k)
                        else:
                            e2[k] = v
                    self.edge(n, self._node(frame, tgt, "b", e2), ("opaque",))
                return
        if mode == "fnitem" and fn.get("ctor"):
            # a tuple-struct or variant constructor used as a function
            sub = {}
            adt, var = self._ctor(fn)
            if self.facts.adts.get(adt, {}).get("kind") == "enum":
                sub[()] = ("v", var)
            tup = self.read_op(frame, t["args"][1], env)
            for s, v in tup.items():
                if s:
                    sub[((var + "." if sub.get(()) else "") + s[0],) + s[1:]] = v
            n.call = ("ctor:" + (adt or "") + "::" + (var or ""), fn, None)
            if tgt is not None:
                self.write(env, self.place(frame, t["dest"], env), sub)
                self.edge(n, self._node(frame, tgt, "b", env))
            return
        if body is not None and body.blocks and self.may_inline(body, frame):
            cf = self._frame(body, frame, (n.bb, tgt))
            self._bind(cf, frame, t, env, mode)
            for a in t["args"]:
                if a["k"] == "move" and not a["p"][1]:
                    pass
            e = self._node(cf, 0, "b", env)
            self.edge(n, e, ("call",))
            return
        if fn is not None and fn["path"] in ("core::clone::Clone::clone",) and tgt is not None:
            # a clone carries the same variants and constants
            v = self.read_op(frame, t["args"][0], env).get(())
            sub = {}
            if v and v[0] == "&":
                sub = {s: x for s, x in under(env, v[1]) if x[0] in ("c", "v")}
            self.write(env, self.place(frame, t["dest"], env), sub)
            self.edge(n, self._node(frame, tgt, "b", env), ("opaque",))
            return
        clos = self._closure_args(frame, t, env) if self.hof_on else []
        clos = [c for c in clos if self.may_inline(c[1], frame)]
        touched = self._havoc(env, frame, t["args"])
        n.info = ("touched", touched)
        if self.world is not None and not self.world.opaque(self, n, fn, frame, t, env):
            return
        if clos:
            h = self._node(frame, n.bb, "h", env)
            self.edge(n, h, ("hof",))
            return
        if tgt is None:
            return
        kill(env, self.place(frame, t["dest"], env))
        self._moved(frame, t, env)
        self.edge(n, self._node(frame, tgt, "b", env), ("opaque",))

    def _moved(self, frame, t, env):
        for a in t["args"]:
            if a["k"] == "move":
                kill(env, self.place(frame, a["p"], env))

    def _ctor(self, fn):
        p = fn.get("ctor_of") or fn["path"]
        # `a::Enum::Variant` or `a::Struct`
        base = p.rsplit("::", 1)
        if base[0] in self.facts.adts:
            return base[0], base[1]
        if p in self.facts.adts:
            return p, base[1]
        b2 = base[0].rsplit("::", 1)
        if b2[0] in self.facts.adts:
            return b2[0], b2[1]
        return p, base[1]

    def _closure_args(self, frame, t, env):
        out = []
        for i, a in enumerate(t["args"]):
            for sfx, v in self.read_op(frame, a, env).items():
                k = 0
                w, wp = v, None
                while w and w[0] == "&" and k < 3:
                    wp = w[1]
                    w = env.get(w[1])
                    k += 1
                if w and w[0] == "clo":
                    b = self.facts.bodies.get(w[1])
                    if b is not None:
                        out.append((i, b, sfx, wp))
                elif w and w[0] == "fn":
                    j = w[1].j
                    b = self.facts.bodies.get(j.get("resid") or j["id"])
                    if b is not None and b.krate in ("stuart", "stuart_core"):
                        out.append((i, b, sfx, wp))
        return out

    def _bind(self, cf, frame, t, env, mode):
        """Bind the arguments of a call into the callee frame's parameters."""
        body = cf.body
        args = t["args"]
        subs = []
        if mode in ("closure", "fnitem"):
            selfop, tup = args[0], args[1] if len(args) > 1 else None
            tsub = self.read_op(frame, tup, env) if tup is not None else {}
            n_el = 8
            tp = self.place(frame, tup["p"], env) if tup is not None and op_place(tup) else None
            spread = []
            for i in range(n_el):
                s = {k[1:]: v for k, v in tsub.items() if k and k[0] == str(i)}
                spread.append((s, (tp[0], tp[1] + (str(i),)) if tp else None))
            if mode == "closure":
                ssub = self.read_op(frame, selfop, env)
                sp = self.place(frame, selfop["p"], env) if op_place(selfop) else None
                want_ref = body.ty(1)["k"] == "ref"
                v = ssub.get(())
                if want_ref and v and v[0] == "clo":
                    ssub = {(): ("&", sp, True)} if sp else {}
                elif want_ref and v and v[0] == "&":
                    w = env.get(v[1])
                    if w and w[0] == "&":
                        ssub = {(): w}
                elif not want_ref and v and v[0] == "&":
                    ssub = dict(under(env, v[1]))
                subs = [(ssub, sp)] + spread
            else:
                subs = spread
        else:
            for a in args:
                p = op_place(a)
                subs.append((self.read_op(frame, a, env), self.place(frame, p, env) if p else None))
        for i in range(1, body.argc + 1):
            if i - 1 >= len(subs):
                break
            sub, src = subs[i - 1]
            ty = body.ty(i)
            if () not in sub and ty["k"] in ("ref", "ptr") and src is not None:
                sub = dict(sub)
                sub[()] = ("&", (src[0], src[1] + ("*",)), ty.get("mut", False))
            self.write(env, ((cf.id, i), ()), sub)

    def _hof_head(self, n, env):
        """An opaque call that was handed closures: any of them may run, any number of times, then it returns."""
        frame = n.frame
        t = n.term
        n.tenv = dict(env)
        body, path, fn, mode = self.callee(frame, t, env)
        n.call = (path or "?", fn, None)
        for i, b, sfx, wp in self._closure_args(frame, t, env):
            if not self.may_inline(b, frame):
                continue
            e2 = dict(env)
            cf = self._frame(b, frame, (n.bb, None), hof=(i, path), kind="hof")
            if b.kind == "closure":
                a = t["args"][i]
                src = wp or (self.place(frame, a["p"], e2) if op_place(a) else None)
                if src is not None and not wp and sfx:
                    src = (src[0], src[1] + sfx)
                if b.ty(1)["k"] == "ref":
                    if src is not None:
                        self.write(e2, ((cf.id, 1), ()), {(): ("&", src, True)})
                elif src is not None:
                    self.write(e2, ((cf.id, 1), ()), dict(under(e2, src)))
                start = 2
            else:
                start = 1
            for j in range(start, b.argc + 1):
                kill(e2, ((cf.id, j), ()))
            self.edge(n, self._node(cf, 0, "b", e2), ("hofcall", i))
        tgt = t["t"]
        if tgt is not None:
            e2 = dict(env)
            kill(e2, self.place(frame, t["dest"], e2))
            self._moved(frame, t, e2)
            self.edge(n, self._node(frame, tgt, "b", e2), ("opaque",))

    def edge(self, a, b, label=None):
        for x, l in a.succ:
            if x is b and l == label:
                return
        a.succ.append((b, label))
        b.pred.append((a, label))


def compute_live(body):
    """(live-at-block-entry sets, address-taken locals). Drops and storage markers are not uses."""
    nb = len(body.blocks)
    use, deff = [set() for _ in range(nb)], [set() for _ in range(nb)]
    addr = set()
    succs = []
    for i, b in enumerate(body.blocks):
        u, d = use[i], deff[i]

        def read(p):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])
        for s in b["st"]:
            if s["k"] == "assign":
                r = s["r"]
                for o in rv_ops(r):
                    if op_place(o):
                        read(op_place(o))
                if r["k"] in ("ref", "discr"):
                    read(r["p"])
                    if r["k"] == "ref" and "*" not in [e for e in r["p"][1] if isinstance(e, str)]:
                        addr.add(r["p"][0])
                if s["p"][1]:
                    read(s["p"])
                elif s["p"][0] not in u:
                    d.add(s["p"][0])
        t = b["t"]
        k = t["k"]
        if k == "switch" and op_place(t["d"]):
            read(t["d"]["p"])
        elif k in ("call", "tailcall"):
            for o in [t["f"]] + t["args"]:
                if op_place(o):
                    read(op_place(o))
            if k == "call":
                if t["dest"][1]:
                    read(t["dest"])
                elif t["dest"][0] not in u:
                    d.add(t["dest"][0])
        elif k == "assert":
            for o in [t["c"]] + t["ops"]:
                if op_place(o):
                    read(op_place(o))
        elif k == "return":
            if 0 not in d:
                u.add(0)
        succs.append(block_succs(t))
    live = [set() for _ in range(nb)]
    ch = True
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            o = set()
            for s in succs[i]:
                o |= live[s]
            n = use[i] | (o - deff[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return live, addr


def block_succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["targets"]] + [t["otherwise"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    return []
