"""Provenance terms: where a value at a program point comes from, read backwards over the exploded graph.

A term is a nested tuple:
  ('const', v) | ('param', i, name) | ('static', path) | ('item', path) | ('fn', path) | ('closure', id)
  ('call', path, (args...)) | ('field', t, 'name') | ('agg', 'path::Variant', ((field, term)...)) | ('bin', op, a, b)
  ('un', op, a) | ('cast', to, a) | ('discr', t) | ('index', t, ixterm) | ('hofarg', path, i, (args...))
  ('upd', path, (args...)) | ('part', suffix, t) | ('phi', frozenset) | ('rec',) | ('unknown', why)
References, dereferences, boxes and identity-like calls (clone, as_ref, to_string, ...) are transparent.
"""
import re
from facts import op_place, rv_ops

IDENT = {
    "core::clone::Clone::clone", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::ops::deref::Deref::deref",
    "core::ops::deref::DerefMut::deref_mut", "core::convert::Into::into", "core::convert::From::from",
    "alloc::string::ToString::to_string", "alloc::borrow::ToOwned::to_owned", "core::borrow::Borrow::borrow",
    "alloc::string::String::as_str", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes", "str::as_bytes", "core::str::as_bytes",
    "std::path::Path::to_path_buf", "std::path::PathBuf::as_path", "std::path::Path::new", "alloc::boxed::Box::new", "alloc::rc::Rc::new",
    "alloc::sync::Arc::new", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "core::option::Option::cloned",
    "core::iter::traits::collect::IntoIterator::into_iter", "core::slice::iter", "[T]::iter", "alloc::slice::to_vec",
    "core::hint::must_use", "core::iter::traits::iterator::Iterator::by_ref", "std::path::PathBuf::from",
    "alloc::string::String::as_mut_str", "alloc::slice::into_vec", "alloc::boxed::box_assume_init_into_vec_unsafe",
    "core::convert::identity", "alloc::string::String::into_boxed_str", "alloc::vec::Vec::into_boxed_slice",
    "alloc::borrow::Cow::into_owned", "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
    "core::mem::take", "alloc::vec::Vec::from_iter_identity", "std::ffi::os_str::OsStr::to_os_string", "alloc::string::String::from_str_identity",
    "alloc::boxed::Box::from_raw", "alloc::boxed::Box::into_raw",
}
IDENT_RE = re.compile(r"::(into_iter|iter|iter_mut|as_slice|as_mut_slice|to_vec|as_str|to_owned|as_path|into_vec|as_mut_ptr)$|"
                      r"^<.* as core::(convert::(AsRef|From|Into|AsMut)|clone::Clone|ops::deref::(Deref|DerefMut)|borrow::Borrow).*>::|"
                      r"^<.* as alloc::(string::ToString|borrow::ToOwned)>::|"
                      r"^<.* as core::iter::traits::collect::IntoIterator>::into_iter$")
# opaque calls through &mut that only advance a cursor, and do not change what the value denotes
CURSOR = re.compile(r"(::next|::next_back|::peek|::nth|::by_ref|::advance_by)$")
NOT_IDENT = re.compile(r"(FromResidual|TryFrom|TryInto|from_str|from_utf8|toml::value::Value as core::convert::From)")


def ident(path, trait_path=None):
    if NOT_IDENT.search(path):
        return False
    return path in IDENT or (trait_path in IDENT if trait_path else False) or bool(IDENT_RE.search(path))


class Terms:
    def __init__(self, g, ident_fn=ident, allow=None):
        self.g = g
        self.allow = allow
        self.memo = {}
        self.rmemo = {}
        self.ident = ident_fn
        self.envs = {}

    # ---------------------------------------------------------------- statement-level environments
    def senv(self, n):
        """The abstract state before each statement of node n (and before its terminator)."""
        e = self.envs.get(n.id)
        if e is None:
            e = []
            env = dict(n.env)
            if n.kind == "b":
                for s in n.block["st"]:
                    e.append(dict(env))
                    self.g.stmt(n.frame, s, env)
            e.append(env)
            self.envs[n.id] = e
        return e

    # ---------------------------------------------------------------- reaching definitions
    def defs(self, n, pos, place):
        """Atoms that may define `place` just before statement `pos` of node `n`.
        An atom is (node, pos, kind, data, suffix)."""
        key = (n.id, pos, place)
        r = self.rmemo.get(key)
        if r is not None:
            return r
        atoms = []
        seen = set()
        work = [(n, pos, place)]
        while work:
            x, p, pl = work.pop()
            nxt = self._scan(x, p, pl, atoms)
            if nxt is None:
                continue
            for (y, yp, ypl) in nxt:
                k = (y.id, yp, ypl)
                if k in seen:
                    continue
                seen.add(k)
                work.append((y, yp, ypl))
        # dedupe, keep order
        out, s2 = [], set()
        for a in atoms:
            k = (a[0].id if a[0] is not None else None, a[1], a[2], a[4], repr(a[3]) if a[2] in ("upd", "hofarg", "tup") else None)
            if k not in s2:
                s2.add(k)
                out.append(a)
        self.rmemo[key] = out
        return out

    def _scan(self, x, pos, place, atoms):
        """Walk backwards through node x from `pos`. Returns the continuation points, or None when fully defined."""
        g = self.g
        root, proj = place
        if x.kind == "h":
            pos = 0
        else:
            st = x.block["st"]
            if pos is None:
                pos = len(st)
            envs = None
            i = pos - 1
            while i >= 0:
                s = st[i]
                if s["k"] == "assign":
                    if envs is None:
                        envs = self.senv(x)
                    if not s["p"][1] and (x.frame.id, s["p"][0]) != root:
                        i -= 1
                        continue
                    d = g.place(x.frame, s["p"], envs[i])
                    if d[0] == root:
                        dp = d[1]
                        if proj[:len(dp)] == dp:
                            suffix = proj[len(dp):]
                            r = s["r"]
                            nr = self._through(x, i, r, suffix, envs[i])
                            if nr is not None:
                                # rename and continue in the same node
                                root, proj = nr
                                i -= 1
                                continue
                            atoms.append((x, i, "assign", r, suffix))
                            return None
                        elif dp[:len(proj)] == proj:
                            atoms.append((x, i, "part", s["r"], dp[len(proj):]))
                        elif _maybe_index(dp, proj):
                            atoms.append((x, i, "part", s["r"], dp[len(proj):] or ("[]",)))
                i -= 1
        place = (root, proj)
        # block entry: go to the predecessors
        fr = x.frame
        if not x.pred:
            # root entry
            if x is g.entry:
                atoms.append((None, 0, "param", root, proj))
            else:
                atoms.append((None, 0, "param", root, proj))
            return None
        out = []
        for (p, lab) in x.pred:
            if self.allow is not None and not self.allow(p, x, lab):
                continue
            out.extend(self._edge_back(x, p, lab, place, atoms))
        return out

    def _edge_back(self, x, p, lab, place, atoms):
        """Move a search for `place` from the start of x back over the edge p -> x."""
        g = self.g
        root, proj = place
        k = lab[0] if lab else None
        if k == "call":
            # x is the entry of an inlined callee
            if root[0] == x.frame.id:
                return self._args_back(x.frame, p, root[1], proj, atoms)
            return [(p, None, place)]
        if k == "ret":
            # p is the return node of an inlined callee; x the continuation
            t = x.frame.body.blocks[p.frame.call[0]]["t"]
            env = p.tenv
            d = g.place(x.frame, t["dest"], env)
            if d[0] == root:
                if proj[:len(d[1])] == d[1]:
                    return [(p, None, ((p.frame.id, 0), proj[len(d[1]):]))]
                if d[1][:len(proj)] == proj:
                    atoms.append((p, None, "retpart", p.frame, d[1][len(proj):]))
            return [(p, None, place)]
        if k == "opaque" or (k is None and p.call is not None and p.term["k"] == "call" and p.kind == "b" and p.frame is x.frame and p.call[0].startswith("ctor:")):
            t = p.term
            env = self.senv(p)[-1]
            d = g.place(p.frame, t["dest"], env)
            if d[0] == root:
                if proj[:len(d[1])] == d[1]:
                    atoms.append((p, None, "call", t, proj[len(d[1]):]))
                    return []
                if d[1][:len(proj)] == proj:
                    atoms.append((p, None, "callpart", t, d[1][len(proj):]))
            if p.kind == "b":
                self._upd(p, t, place, atoms)
            return [(p, None, place)]
        if k == "hof":
            self._upd(p, p.term, place, atoms)
            return [(p, None, place)]
        if k == "hofcall":
            fr = x.frame
            if root[0] == fr.id:
                b = fr.body
                i = root[1]
                t = p.term
                if b.kind == "closure" and i == 1:
                    a = t["args"][lab[1]]
                    pl = op_place(a)
                    if pl:
                        env = self.senv(p)[-1]
                        q = g.place(p.frame, pl, env)
                        v = env.get(q)
                        if v and v[0] == "&":
                            q = v[1]
                        pr = proj[1:] if proj[:1] == ("*",) else proj
                        return [(p, None, (q[0], q[1] + pr))]
                atoms.append((p, None, "hofarg", (t, i - (1 if b.kind == "closure" else 0), lab[1]), proj))
                return []
            return [(p, None, place)]
        return [(p, None, place)]

    def _args_back(self, frame, p, i, proj, atoms):
        """The caller-side places bound to parameter i of the inlined frame."""
        g = self.g
        t = p.term
        env = self.senv(p)[-1]
        body, path, fn, mode = g.callee(p.frame, t, env)
        args = t["args"]
        if mode in ("closure", "fnitem"):
            if mode == "closure" and i == 1:
                a = args[0]
                pl = op_place(a)
                if pl is None:
                    atoms.append((p, None, "op", a, proj))
                    return []
                q = g.place(p.frame, pl, env)
                v = env.get(q)
                n = 0
                while v and v[0] == "&" and n < 3:
                    q = v[1]
                    v = env.get(q)
                    n += 1
                pr = proj[1:] if proj[:1] == ("*",) else proj
                return [(p, None, (q[0], q[1] + pr))]
            j = i - 2 if mode == "closure" else i - 1
            a = args[1] if len(args) > 1 else None
            if a is None:
                atoms.append((None, 0, "unknown", "arg", proj))
                return []
            pl = op_place(a)
            if pl is None:
                atoms.append((p, None, "op", a, (str(j),) + proj))
                return []
            q = g.place(p.frame, pl, env)
            return [(p, None, (q[0], q[1] + (str(j),) + proj))]
        if i - 1 >= len(args):
            atoms.append((None, 0, "unknown", "arg", proj))
            return []
        a = args[i - 1]
        pl = op_place(a)
        if pl is None:
            atoms.append((p, None, "op", a, proj))
            return []
        q = g.place(p.frame, pl, env)
        return [(p, None, (q[0], q[1] + proj))]

    def _upd(self, p, t, place, atoms):
        """Does the opaque call terminating p change `place` through a &mut argument?"""
        if not (p.info and p.info[0] == "touched"):
            return
        root, proj = place
        for tp in p.info[1]:
            if tp[0] == root and (proj[:len(tp[1])] == tp[1] or tp[1][:len(proj)] == proj):
                path = p.call[0] if p.call else "?"
                if CURSOR.search(path):
                    return
                atoms.append((p, None, "upd", (t, path), proj[len(tp[1]):] if proj[:len(tp[1])] == tp[1] else ()))
                return

    def _through(self, x, i, r, suffix, env):
        """If assignment rvalue r just copies or wraps another place, the place to continue with."""
        g = self.g
        k = r["k"]
        if k == "use" or (k == "cast" and ("PtrToPtr" in r["ck"] or "PointerCoercion" in r["ck"] or "Transmute" in r["ck"] or "Subtype" in r["ck"])):
            p = op_place(r["o"])
            if p:
                q = g.place(x.frame, p, env)
                return (q[0], q[1] + suffix)
            return None
        if k == "ref":
            q = g.place(x.frame, r["p"], env)
            if suffix[:1] == ("*",):
                return (q[0], q[1] + suffix[1:])
            return (q[0], q[1] + suffix)
        if k == "agg" and suffix:
            s0 = suffix[0]
            if r["a"] == "adt":
                a = g.facts.adts.get(r["path"])
                pre = (r["variant"] + ".") if a and a["kind"] == "enum" else ""
                for f, o in zip(r["fields"], r["ops"]):
                    if pre + f == s0 and op_place(o):
                        q = g.place(x.frame, op_place(o), env)
                        return (q[0], q[1] + suffix[1:])
            else:
                for j, o in enumerate(r["ops"]):
                    if s0 == ("[%d]" % j if r["a"] == "array" else str(j)) and op_place(o):
                        q = g.place(x.frame, op_place(o), env)
                        return (q[0], q[1] + suffix[1:])
        return None

    # ---------------------------------------------------------------- terms
    def at(self, n, pos, place, busy=frozenset()):
        key = (n.id, pos, place)
        if key in self.memo:
            return self.memo[key]
        if key in busy:
            return ("rec",)
        busy2 = busy | {key}
        ts = set()
        for a in self.defs(n, pos, place):
            t = self.atom(a, busy2)
            if t[0] == "phi":
                ts |= t[1]
            else:
                ts.add(t)
        ts.discard(("rec",))
        if not ts:
            r = ("rec",)
        elif len(ts) == 1:
            r = next(iter(ts))
        else:
            r = ("phi", frozenset(ts))
        if not busy or not has_rec(r):
            self.memo[key] = r
        return r

    def operand(self, n, pos, o, busy=frozenset()):
        p = op_place(o)
        if p is None:
            return self.const(n, o)
        env = self.senv(n)[pos if pos is not None else -1]
        return self.at(n, pos, self.g.place(n.frame, p, env), busy)

    def const(self, n, o):
        if o["k"] != "const":
            return ("unknown", o["k"])
        if "fn" in o:
            return ("fn", o["fn"].get("res") or o["fn"]["path"])
        for k in ("bool", "int", "char", "str"):
            if k in o:
                return ("const", o[k])
        if "bytes" in o:
            return ("bytes", tuple(o["bytes"]))
        if "float" in o:
            return ("const", float(o["float"]))
        if "static" in o:
            return ("static", o["static"])
        if "promoted" in o:
            b = self.g.facts.bodies.get(o["of"])
            if b is not None and b.promoted:
                return self.promoted(b, o["promoted"])
            return ("unknown", "promoted")
        if "variant" in o:
            t = n.frame.body.types[o["ty"]] if n is not None else {}
            return ("agg", "%s::%s" % (t.get("path", "?"), o["variant"]), ())
        if "item" in o:
            return ("item", o["item"])
        t = n.frame.body.types[o["ty"]] if n is not None else {}
        if t.get("k") == "closure":
            return ("closure", t["def"])
        if o.get("zst"):
            return ("agg", t.get("path") or t.get("s", "()"), ())
        return ("const?", o.get("s"))

    def promoted(self, b, ix):
        """A promoted constant: evaluate its little body."""
        key = ("prom", b.id, ix)
        if key in self.memo:
            return self.memo[key]
        pb = b.promoted[ix]
        vals = {}

        class _N:
            pass
        nn = _N()
        nn.frame = _N()
        nn.frame.body = b

        def rd(p):
            t = vals.get(p[0], ("unknown", "promoted"))
            for e in p[1]:
                if isinstance(e, list) and e[0] == "f":
                    t = field(t, e[2])
            return t

        def op(o):
            p = op_place(o)
            return rd(p) if p else self.const(nn, o)
        for blk in pb["blocks"]:
            for s in blk["st"]:
                if s["k"] != "assign" or s["p"][1]:
                    continue
                r = s["r"]
                if r["k"] in ("use", "cast"):
                    v = op(r["o"])
                elif r["k"] == "ref":
                    v = rd(r["p"])
                elif r["k"] == "agg":
                    v = self.agg(r, [op(o) for o in r["ops"]])
                else:
                    v = ("unknown", "promoted")
                vals[s["p"][0]] = v
        r = vals.get(0, ("unknown", "promoted"))
        self.memo[key] = r
        return r

    def agg(self, r, ops):
        if r["a"] == "adt":
            a = self.g.facts.adts.get(r["path"])
            isenum = a and a["kind"] == "enum"
            nm = r["path"] + ("::" + r["variant"] if isenum else "")
            pre = (r["variant"] + ".") if isenum else ""
            if r["path"] == "alloc::boxed::Box":
                return ops[0]
            return ("agg", nm, tuple((pre + f, o) for f, o in zip(r["fields"], ops)))
        if r["a"] == "closure":
            return ("agg", "closure:" + r["def"], tuple((str(i), o) for i, o in enumerate(ops)))
        nm = {"tuple": "tuple", "array": "array"}.get(r["a"], r["a"])
        return ("agg", nm, tuple((("[%d]" % i) if nm == "array" else str(i), o) for i, o in enumerate(ops)))

    def rvalue(self, x, i, r, busy):
        k = r["k"]
        if k in ("use",):
            return self.operand(x, i, r["o"], busy)
        if k == "cast":
            t = self.operand(x, i, r["o"], busy)
            if r["ck"].startswith(("IntTo", "FloatTo")):
                return ("cast", x.body.types[r["to"]]["s"], t)
            return t
        if k == "ref":
            env = self.senv(x)[i]
            return self.at(x, i, self.g.place(x.frame, r["p"], env), busy)
        if k == "bin":
            op = r["op"].replace("WithOverflow", "").replace("Unchecked", "")
            return ("bin", op, self.operand(x, i, r["a"], busy), self.operand(x, i, r["b"], busy))
        if k == "un":
            t = self.operand(x, i, r["o"], busy)
            if r["op"] == "PtrMetadata":
                return ("call", "len", (t,))
            return ("un", r["op"], t)
        if k == "discr":
            env = self.senv(x)[i]
            return ("discr", self.at(x, i, self.g.place(x.frame, r["p"], env), busy), x.frame.body.types[r["ty"]].get("path") or "")
        if k == "agg":
            return self.agg(r, [self.operand(x, i, o, busy) for o in r["ops"]])
        if k == "repeat":
            return ("repeat", self.operand(x, i, r["o"], busy), r["n"])
        if k == "tls":
            return ("static", r["static"])
        return ("unknown", k)

    def call_term(self, x, t, busy):
        path = x.call[0] if x.call else "?"
        fn = x.call[1] if x.call else None
        args = tuple(self.operand(x, None, a, busy) for a in t["args"])
        return norm_call(path, fn["path"] if fn else None, args, self.ident, fn, x.call[2] if x.call else None)

    def atom(self, a, busy):
        x, i, kind, data, suffix = a
        if kind == "param":
            root, proj = data, suffix
            b = self.g.root_body
            ix = root[1] if root[0] in ("P", 0) else None
            if root[0] == "P" or root[0] == 0:
                if isinstance(ix, int) and 1 <= ix <= b.argc:
                    t = ("param", ix, b.locals[ix].get("name") or "_%d" % ix)
                    if b.kind == "closure" and ix == 1:
                        t = ("param", 1, "<closure>")
                else:
                    t = ("unknown", "uninit")
            else:
                t = ("unknown", "uninit")
            return proj_term(t, proj)
        if kind == "assign":
            return proj_term(self.rvalue(x, i, data, busy), suffix)
        if kind == "part":
            return ("part", suffix, self.rvalue(x, i, data, busy))
        if kind == "op":
            return proj_term(self.const(x, data), suffix)
        if kind == "call":
            return proj_term(self.call_term(x, data, busy), suffix)
        if kind == "callpart":
            return ("part", suffix, self.call_term(x, data, busy))
        if kind == "retpart":
            return ("part", suffix, self.at(x, None, ((data.id, 0), ()), busy))
        if kind == "upd":
            t, path = data
            args = tuple(self.operand(x, None, o, busy) for o in t["args"][0:])
            return ("upd", path, args[1:] if args else ())
        if kind == "hofarg":
            t, j, ai = data
            path = x.call[0] if x.call else "?"
            args = tuple(self.operand(x, None, o, busy) for o in t["args"])
            return proj_term(("hofarg", path, j, args), suffix)
        return ("unknown", str(data))


def _maybe_index(dp, proj):
    """Could a write to dp (with unknown indices) hit proj?"""
    n = min(len(dp), len(proj))
    for a, b in zip(dp[:n], proj[:n]):
        if a == b:
            continue
        if a.startswith("[") and b.startswith("[") and ("[]" in (a, b) or ".." in a + b):
            continue
        return False
    return len(dp) >= len(proj) and dp[:n] != proj[:n]


def has_rec(t):
    if t == ("rec",):
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(has_rec(x) for x in t if isinstance(x, (tuple, frozenset)))
    return False


def phi_map(t, f):
    if t[0] == "phi":
        out = set()
        for x in t[1]:
            y = f(x)
            if y[0] == "phi":
                out |= y[1]
            else:
                out.add(y)
        if len(out) == 1:
            return next(iter(out))
        return ("phi", frozenset(out))
    return f(t)


def field(t, name):
    def one(t):
        if t[0] == "agg":
            for f, v in t[2]:
                if f == name:
                    return v
            if t[1].startswith("alloc::") and len(t[2]) == 1:
                return t
        if t[0] == "part":
            if t[1] and t[1][0] == name:
                return t[2] if len(t[1]) == 1 else ("part", t[1][1:], t[2])
            return ("field", t, name)
        if name == "Some.0" and t[0] == "call" and t[1] == "core::slice::get":
            return index(*t[2])
        return ("field", t, name)
    return phi_map(t, one)


def index(t, i):
    if i[0] == "const" and isinstance(i[1], int) and not isinstance(i[1], bool):
        return ("index", t, "[%d]" % i[1])
    return ("index", t, i)


def proj_term(t, suffix):
    for s in suffix:
        if s == "*":
            continue
        if s.startswith("["):
            if t[0] == "agg" and t[1] == "array":
                t = field(t, s) if s != "[]" else ("phi", frozenset(v for _, v in t[2])) if len(t[2]) > 1 else t
            else:
                t = ("index", t, s)
        else:
            t = field(t, s)
    return t


RENAME = {}


def norm_call(path, tpath, args, identf, fn=None, body=None):
    p = path
    if path.startswith("ctor:"):
        return ("agg", path[5:], tuple((path[5:].rsplit("::", 1)[-1] + "." + str(i), a) for i, a in enumerate(args[1:])))
    if len(args) >= 1 and identf(p, tpath) and not (body is not None and body.krate in ("stuart", "stuart_core") and "core::clone::Clone" not in p and "Deref" not in p):
        return args[0]
    if tpath and tpath != p:
        # report the trait method, with the implementing type kept for workspace types
        if not (body is not None):
            p = tpath
    if p.endswith("::len") and len(args) == 1:
        return ("call", "len", args)
    if p.endswith("::is_empty") and len(args) == 1:
        return ("bin", "Eq", ("call", "len", args), ("const", 0))
    if p.endswith("PartialEq::eq") or p.endswith("::eq") and "PartialEq" in p:
        return ("bin", "Eq", args[0], args[1])
    if p.endswith("PartialEq::ne") or p.endswith("::ne") and "PartialEq" in p:
        return ("bin", "Ne", args[0], args[1])
    m = re.search(r"PartialOrd[^:]*(?:<.*>)?>?::(lt|le|gt|ge)$", p)
    if m:
        return ("bin", {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m.group(1)], args[0], args[1])
    if p.endswith("::index") and "Index" in p and len(args) == 2:
        return index(args[0], args[1])
    if len(args) == 1 and re.search(r"(slice::|Vec::|\[T\]::)first$", p):
        return ("call", "core::slice::get", (args[0], ("const", 0)))
    if len(args) == 2 and re.search(r"(slice::|Vec::|\[T\]::)get$", p):
        return ("call", "core::slice::get", args)
    return ("call", p, args)


# -------------------------------------------------------------------- helpers over terms
def walk(t):
    """All subterms."""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
            continue
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    st.append(y)


def alts(t):
    """The alternatives of a term."""
    return list(t[1]) if t[0] == "phi" else [t]


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if d > 9:
        return "…"
    s = lambda x: show(x, d + 1)
    if k == "const":
        return repr(t[1])
    if k == "param":
        return t[2]
    if k == "field":
        return s(t[1]) + "." + t[2]
    if k == "call":
        return "%s(%s)" % (short(t[1]), ", ".join(map(s, t[2])))
    if k == "agg":
        return "%s{%s}" % (short(t[1]), ", ".join("%s:%s" % (f, s(v)) for f, v in t[2]))
    if k == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "un":
        return "%s(%s)" % (t[1], s(t[2]))
    if k == "cast":
        return "(%s as %s)" % (s(t[2]), t[1])
    if k == "phi":
        return "phi{" + " | ".join(sorted(map(s, t[1]))) + "}"
    if k == "index":
        return "%s[%s]" % (s(t[1]), t[2] if isinstance(t[2], str) else s(t[2]))
    if k == "upd":
        return "upd:%s(%s)" % (short(t[1]), ", ".join(map(s, t[2])))
    if k == "part":
        return "part.%s=%s" % (".".join(t[1]), s(t[2]))
    if k == "hofarg":
        return "hofarg:%s#%d(%s)" % (short(t[1]), t[2], ", ".join(map(s, t[3])))
    if k == "discr":
        return "discr(%s)" % s(t[1])
    if k in ("fn", "static", "item", "closure"):
        return short(t[1])
    return repr(t)


def short(p):
    return re.sub(r"(?<![A-Za-z0-9_])(?:[a-z_0-9]+::)+(?=[A-Za-z_{])", lambda m: "::".join(m.group(0).split("::")[-2:]) if m.group(0).count("::") > 1 else m.group(0), p)
