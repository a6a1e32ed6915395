"""Query layer over the exploded supergraph: calls with argument provenance, branch facts, path queries."""
import re
from collections import deque, defaultdict
from facts import Facts, op_place
from graph import Graph, TooBig
from terms import Terms, walk, alts, show, field, phi_map

_TRAIT = re.compile(r"^<.* as ([\w:]+)(?:<.*>)?>::")
STD_ERR = "core::result::Result::Err"


def parse_fmt(t):
    """('call', fmt::format, (Arguments::new(bytes, args),)) -> ('fmt', ('lit', ...parts...)) parts are str or term."""
    for x in walk(t):
        if x[0] == "call" and x[1].endswith("fmt::Arguments::new") and x[2] and x[2][0][0] == "bytes":
            b = bytes(x[2][0][1])
            args = [v for _, v in x[2][1][2]] if len(x[2]) > 1 and x[2][1][0] == "agg" else []
            return fmt_parts(b, args)
        if x[0] == "call" and x[1].endswith("fmt::Arguments::from_str") and x[2] and x[2][0][0] == "const":
            return [x[2][0][1]]
    return None


def fmt_parts(b, args):
    parts, i, k = [], 0, 0
    while i < len(b) and b[i] != 0:
        c = b[i]
        if c < 0x80:
            parts.append(b[i + 1:i + 1 + c].decode("utf8", "replace"))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | (b[i + 2] << 8)
            parts.append(b[i + 3:i + 3 + n].decode("utf8", "replace"))
            i += 3 + n
        else:
            i += 1
            ix = k
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                ix = b[i] | (b[i + 1] << 8)
                i += 2
            a = args[ix] if ix < len(args) else ("unknown", "arg")
            if a[0] == "call" and "rt::Argument" in a[1]:
                a = a[2][0]
            parts.append(a)
            k += 1
    return parts


class An:
    """The analysis of one root body."""

    def __init__(self, facts, body, **kw):
        self.F = facts
        self.body = body
        self.g = Graph(facts, body, **kw)
        self.T = Terms(self.g)
        self._atoms = {}
        self._must = None
        self._evs = None

    # ------------------------------------------------------------ events
    def is_event(self, n):
        if n.kind == "h":
            return True
        if n.call is None or n.term["k"] != "call":
            return False
        return not any(l and l[0] in ("call", "hof") for _, l in n.succ)

    def events(self, pat=None):
        """Opaque calls (each exploded node once): [(node, path)]."""
        if self._evs is None:
            self._evs = [(n, n.call[0]) for n in self.g.nodes if self.is_event(n)]
        if pat is None:
            return self._evs
        r = re.compile(pat)
        return [(n, p) for n, p in self._evs if r.search(p) or p[0] == "<" and r.search(_TRAIT.sub(r"\1::", p))]

    def entries(self, pat):
        """Nodes that call (and enter) a workspace body whose path matches."""
        r = re.compile(pat)
        return [n for n in self.g.nodes if n.call and n.call[2] is not None and r.search(n.call[2].path)]

    def calls(self, pat):
        """All call nodes, entered or not, whose callee path matches."""
        r = re.compile(pat)
        return [n for n in self.g.nodes if n.call and n.term["k"] == "call" and n.kind == "b" and r.search(n.call[2].path if n.call[2] is not None else n.call[0])]

    def args(self, n):
        return [self.T.operand(n, None, a) for a in n.term["args"]]

    def arg(self, n, i):
        a = n.term["args"]
        return self.T.operand(n, None, a[i]) if i < len(a) else ("unknown", "noarg")

    def result(self, n):
        return self.T.call_term(n, n.term, frozenset())

    def where(self, n):
        sp = n.term["sp"]
        return "%s:%d (in %s)" % (sp[0], sp[1], n.frame.body.path)

    def site(self, n):
        """Line-free identity of a call site: the workspace function it is written in plus the callee."""
        f = n.frame
        while f is not None and f.body.krate not in ("stuart", "stuart_core"):
            f = f.parent
        return f.body.path if f else self.body.path

    # ------------------------------------------------------------ branch facts
    def atoms(self, n, s, lab):
        """Facts that hold on the edge n -> s: list of (op, a, b, truth)."""
        key = (n.id, s.id, lab)
        r = self._atoms.get(key)
        if r is None:
            r = self._atoms[key] = self._edge_atoms(n, s, lab)
        return r

    def _edge_atoms(self, n, s, lab):
        if lab is None or n.kind == "h":
            return []
        k = lab[0]
        if k == "variant":
            return [("variant", self.T.at(n, None, lab[1]), lab[2], True)]
        if k == "notvariants":
            t = self.T.at(n, None, lab[1])
            return [("variant", t, v, False) for v in lab[2]]
        if k in ("val", "notvals"):
            t = self.T.operand(n, None, n.term["d"])
            tys = n.frame.body.types[n.term["dty"]]["s"]
            if tys == "bool":
                truth = (lab[1] != 0) if k == "val" else True
                return self.bool_atoms(t, truth)
            if k == "val":
                return [("Eq", t, ("const", lab[1]), True)]
            return [("Eq", t, ("const", v), False) for v in lab[1]]
        return []

    def bool_atoms(self, t, truth):
        if t[0] == "un" and t[1] == "Not":
            return self.bool_atoms(t[2], not truth)
        if t[0] == "bin":
            op, a, b = t[1], t[2], t[3]
            if op == "Ne":
                op, truth = "Eq", not truth
            elif op == "Ge":
                op, truth = "Lt", not truth
            elif op == "Gt":
                op, a, b = "Lt", b, a
            elif op == "Le":
                op, a, b, truth = "Lt", b, a, not truth
            if op == "BitAnd" and truth:
                return self.bool_atoms(a, True) + self.bool_atoms(b, True)
            if op == "BitOr" and not truth:
                return self.bool_atoms(a, False) + self.bool_atoms(b, False)
            if op == "Eq" and a[0] == "const" and b[0] != "const":
                a, b = b, a
            if op == "Eq" and b[0] == "const" and b[1] is True:
                return self.bool_atoms(a, truth)
            if op == "Eq" and b[0] == "const" and b[1] is False:
                return self.bool_atoms(a, not truth)
            if op == "Eq" and a[0] == "discr" and b[0] == "const":
                v = self.g.facts.variant_of(a[2], b[1])
                if v:
                    return [("variant", a[1], v, truth)]
            return [(op, a, b, truth)]
        if t[0] == "call" and t[1].endswith(("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")):
            v = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[t[1].rsplit("::", 1)[1]]
            return [("variant", t[2][0], v, truth)]
        return [("is", t, None, truth)]

    # ------------------------------------------------------------ paths
    def exits(self, variant=None):
        out = []
        for n in self.g.nodes:
            if n.info == "exit":
                v = n.tenv.get(((0, 0), ()))
                v = v[1] if v and v[0] == "v" else None
                if variant is None or v == variant:
                    out.append(n)
        return out

    def exit_variants(self, n):
        """Possible variants of the value returned at exit node n."""
        v = n.tenv.get(((0, 0), ()))
        if v and v[0] == "v":
            return {v[1]}
        return None

    def reach(self, starts, stop_node=None, stop_edge=None, back=False):
        """Nodes reachable from starts without entering a node/edge on which stop_* holds."""
        seen = set()
        work = deque()
        for s in starts:
            if not (stop_node and stop_node(s)):
                seen.add(s.id)
                work.append(s)
        while work:
            n = work.popleft()
            for (m, lab) in (n.pred if back else n.succ):
                if m.id in seen:
                    continue
                if stop_edge and stop_edge(*((m, n, lab) if back else (n, m, lab))):
                    continue
                if stop_node and stop_node(m):
                    continue
                seen.add(m.id)
                work.append(m)
        return seen

    def path_to(self, starts, goal, stop_node=None, stop_edge=None):
        """A shortest path (list of nodes) from starts to a node satisfying goal, avoiding stops; or None."""
        prev = {}
        work = deque()
        for s in starts:
            if stop_node and stop_node(s):
                continue
            prev[s.id] = None
            work.append(s)
        while work:
            n = work.popleft()
            if goal(n):
                out = []
                while n is not None:
                    out.append(n)
                    n = prev[n.id]
                return out[::-1]
            for (m, lab) in n.succ:
                if m.id in prev or (stop_edge and stop_edge(n, m, lab)) or (stop_node and stop_node(m)):
                    continue
                prev[m.id] = n
                work.append(m)
        return None

    def path_lines(self, path):
        out = []
        for n in path or []:
            b = n.frame.body
            if b.krate in ("stuart", "stuart_core"):
                l = "%s:%d" % (b.blocks[n.bb]["t"]["sp"][0], b.blocks[n.bb]["t"]["sp"][1])
                if not out or out[-1] != l:
                    out.append(l)
        return out

    def must(self):
        """node id -> frozenset of branch facts that hold on every path from the entry to it."""
        if self._must is not None:
            return self._must
        IN = {self.g.entry.id: frozenset()}
        work = deque([self.g.entry])
        inq = {self.g.entry.id}
        while work:
            n = work.popleft()
            inq.discard(n.id)
            base = IN[n.id]
            for (m, lab) in n.succ:
                o = base | frozenset(self.atoms(n, m, lab)) if lab and lab[0] in ("variant", "notvariants", "val", "notvals") else base
                old = IN.get(m.id)
                new = o if old is None else old & o
                if old is None or new != old:
                    IN[m.id] = new
                    if m.id not in inq:
                        inq.add(m.id)
                        work.append(m)
        self._must = IN
        return IN

    def facts_at(self, n):
        return self.must().get(n.id, frozenset())

    def every_path_has(self, node, edge_ok):
        """True if every path entry -> node crosses an edge with a fact satisfying edge_ok(atom)."""
        seen = self.reach([self.g.entry], stop_edge=lambda a, b, l: any(edge_ok(x) for x in self.atoms(a, b, l)))
        return node.id not in seen

    def valueset(self, want, dom, node_filter=None):
        """Forward may-analysis of the possible values (subset of dom, which ends in an 'or more' element) of an
        integer term recognised by want(term); refined by every comparison with a constant on the way."""
        top = frozenset(dom)
        IN = {self.g.entry.id: top}
        work = deque([self.g.entry])
        big = dom[-1]

        def sat(v, op, c, truth):
            if v == big:
                if op == "Eq":
                    return (not truth) if c < big else True
                if op == "Lt":       # v < c
                    return (not truth) if c <= big else True
                if op == "GtC":      # c < v
                    return truth if c < big else True
                return True
            r = {"Eq": v == c, "Lt": v < c, "GtC": c < v}[op]
            return r == truth
        while work:
            n = work.popleft()
            base = IN[n.id]
            for (m, lab) in n.succ:
                vs = base
                for (op, a, b, tr) in (self.atoms(n, m, lab) if lab else []):
                    if op in ("Eq", "Lt") and b is not None and b[0] == "const" and want(a) and isinstance(b[1], int):
                        vs = frozenset(v for v in vs if sat(v, op, b[1], tr))
                    elif op == "Lt" and a[0] == "const" and want(b) and isinstance(a[1], int):
                        vs = frozenset(v for v in vs if sat(v, "GtC", a[1], tr))
                if not vs:
                    continue
                old = IN.get(m.id, frozenset())
                new = old | vs
                if new != old or m.id not in IN:
                    IN[m.id] = new
                    work.append(m)
        return IN


    def variantset(self, want, dom):
        """Like valueset, for the enum variant of a term recognised by want(term). {node id: frozenset of variants}"""
        top = frozenset(dom)
        IN = {self.g.entry.id: top}
        work = deque([self.g.entry])
        while work:
            n = work.popleft()
            base = IN[n.id]
            for (m, lab) in n.succ:
                vs = base
                for (op, a, b, tr) in (self.atoms(n, m, lab) if lab else []):
                    if op == "variant" and want(a):
                        vs = frozenset(v for v in vs if (v == b) == tr)
                if not vs:
                    continue
                old = IN.get(m.id, frozenset())
                new = old | vs
                if new != old or m.id not in IN:
                    IN[m.id] = new
                    work.append(m)
        return IN

    def edges(self, pred):
        """Edges (n, m, lab) with a fact satisfying pred(atom)."""
        out = []
        for n in self.g.nodes:
            for (m, lab) in n.succ:
                if lab and any(pred(x) for x in self.atoms(n, m, lab)):
                    out.append((n, m, lab))
        return out


# -------------------------------------------------------------------- call graph over bodies
class CallGraph:
    """Context-insensitive call graph: direct calls, closures and function items mentioned, drop glue of workspace
    types with Drop impls, and dynamic dispatch to every workspace impl of the trait."""

    def __init__(self, F):
        self.F = F
        self.dyn = defaultdict(list)
        for i in F.impls:
            for ti, bid, path in i["items"]:
                if bid in F.bodies:
                    self.dyn[ti].append(F.bodies[bid])
        self.succ = {}
        self.ext = {}
        for b in F.bodies.values():
            self._scan(b)

    def _scan(self, b):
        out, ext = [], []
        seen = set()

        def fnref(fn, sp, called):
            rid = fn.get("resid")
            t = self.F.bodies.get(rid) if rid else None
            if t is None and not fn.get("trait"):
                t = self.F.bodies.get(fn["id"])
            if t is not None:
                out.append((t, sp))
                return
            if fn.get("trait"):
                # unresolved or virtual: every workspace impl may run
                cands = self.dyn.get(fn["path"], [])
                if fn.get("res") and fn.get("krate") not in ("stuart", "stuart_core"):
                    cands = []
                for c in cands:
                    out.append((c, sp))
                dm = self.F.by_path.get(fn["path"])
                if dm:
                    out.append((dm[0], sp))
                if cands or dm:
                    if fn.get("krate") in ("stuart", "stuart_core"):
                        return
            ext.append((fn.get("res") or fn.get("virtual") or fn["path"], sp, called, fn))

        def operand(o, sp):
            if o["k"] == "const" and "fn" in o:
                fnref(o["fn"], sp, False)
            elif o["k"] == "const" and "ty" in o:
                t = b.types[o["ty"]]
                if t["k"] == "closure" and t["def"] in self.F.bodies:
                    out.append((self.F.bodies[t["def"]], sp))

        def blocks(bl):
            for blk in bl:
                for s in blk["st"]:
                    if s["k"] == "assign":
                        r = s["r"]
                        for o in ([r["o"]] if "o" in r else []) + ([r["a"], r["b"]] if r["k"] == "bin" else []) + (r["ops"] if r["k"] == "agg" else []):
                            operand(o, s["sp"])
                        if r["k"] == "agg" and r.get("a") == "closure" and r["def"] in self.F.bodies:
                            out.append((self.F.bodies[r["def"]], s["sp"]))
                t = blk["t"]
                if t["k"] in ("call", "tailcall"):
                    f = t["f"]
                    if f["k"] == "const" and "fn" in f:
                        fnref(f["fn"], t["sp"], True)
                    for a in t["args"]:
                        operand(a, t["sp"])
        blocks(b.blocks)
        for p in b.promoted or []:
            blocks(p["blocks"])
        self.succ[b.id] = out
        self.ext[b.id] = ext

    def reachable(self, roots, stop=None):
        """{body id: (parent body, span)}"""
        seen = {}
        work = deque()
        for r in roots:
            if r.id not in seen:
                seen[r.id] = None
                work.append(r)
        while work:
            b = work.popleft()
            for (c, sp) in self.succ[b.id]:
                if c.id not in seen and not (stop and stop(c)):
                    seen[c.id] = (b, sp)
                    work.append(c)
        return seen

    def chain(self, seen, b):
        out = [b.path]
        while seen.get(b.id):
            b = seen[b.id][0]
            out.append(b.path)
        return out[::-1]
