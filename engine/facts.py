"""Loads the MIR facts written by the rustc wrapper (driver/main.rs) for both workspace crates."""
import json, os, re


class Body:
    __slots__ = ("id", "path", "kind", "krate", "span", "root", "parent", "self_ty", "self_path", "impl_trait",
                 "trait_item", "default_of", "name", "pub", "sty", "smut", "freeze", "argc", "locals", "upvars",
                 "blocks", "promoted", "facts", "types", "_dropflags", "_live", "_defs", "_addr", "raw")

    def __init__(self, facts, types, d):
        self.facts, self.types = facts, types
        self.raw = d
        for k in ("id", "path", "kind", "krate", "span", "root", "parent", "self_ty", "self_path", "impl_trait",
                  "trait_item", "default_of", "name", "pub", "sty", "smut", "freeze", "argc", "locals", "upvars",
                  "blocks", "promoted"):
            setattr(self, k, d.get(k))
        self._dropflags = self._live = self._defs = self._addr = None

    def ty(self, local):
        return self.types[self.locals[local]["ty"]]

    def tyix(self, ix):
        return self.types[ix]

    def __repr__(self):
        return "<Body %s>" % self.path

    @property
    def file(self):
        return self.span[0]


def vec_literals(d):
    """`vec![a, b]` writes an array through a raw pointer into a fresh box that becomes the vector: read it as the array."""
    calls = [(i, blk) for i, blk in enumerate(d["blocks"]) if blk["t"]["k"] == "call" and blk["t"]["f"].get("fn", {}).get("path", "").endswith("box_assume_init_into_vec_unsafe")]
    if not calls:
        return
    moves, casts, stores = {}, {}, {}
    for blk in d["blocks"]:
        for s in blk["st"]:
            if s["k"] != "assign":
                continue
            r = s["r"]
            if r["k"] == "use" and r["o"]["k"] != "const" and not s["p"][1] and not r["o"]["p"][1]:
                moves.setdefault(s["p"][0], []).append(r["o"]["p"][0])
            elif r["k"] == "cast" and r["ck"] == "BoxDerefTransmute" and r["o"]["k"] != "const":
                casts[s["p"][0]] = r["o"]["p"][0]
            elif s["p"][1][:1] == ["*"] and len(s["p"][1]) > 1:
                stores.setdefault(s["p"][0], []).append(r)
    for i, blk in calls:
        t = blk["t"]
        if t["args"][0]["k"] == "const" or t.get("t") is None:
            continue
        al, work = set(), [t["args"][0]["p"][0]]
        while work:
            x = work.pop()
            if x not in al:
                al.add(x)
                work += moves.get(x, [])
        rs = [r for p, b in casts.items() if b in al for r in stores.get(p, [])]
        if len(rs) == 1:
            # the operands may be dead where the vector is made: assign it where the array is written
            for other in d["blocks"]:
                other["st"] = [s for s in other["st"] if s["k"] != "live" or s["l"] != t["dest"][0]]
                for s in other["st"]:
                    if s["k"] == "assign" and s["r"] is rs[0]:
                        s["p"] = t["dest"]
            blk["t"] = {"k": "goto", "t": t["t"], "sp": t["sp"]}


class Facts:
    def __init__(self, d):
        self.bodies = {}      # id -> Body
        self.by_path = {}     # path -> [Body]
        self.adts = {}
        self.impls = []
        self.traits = []
        self.crates = {}
        for c in ("stuart_core", "stuart"):
            p = os.path.join(d, c + ".json")
            j = json.load(open(p))
            self.crates[c] = j
            types = j["types"]
            for b in j["bodies"]:
                if b["id"] in self.bodies:
                    continue
                vec_literals(b)
                o = Body(self, types, b)
                self.bodies[b["id"]] = o
                self.by_path.setdefault(b["path"], []).append(o)
            for k, v in j["adts"].items():
                old = self.adts.get(k)
                if old is None or (not old["variants"] and v["variants"]) or (v["local"] and not old["local"]):
                    v["crate"] = c
                    v["types"] = types
                    self.adts[k] = v
            for i in j["impls"]:
                i["crate"] = c
                i["types"] = types
                self.impls.append(i)
            for t in j["traits"]:
                t["crate"] = c
                self.traits.append(t)
        self.local = [b for b in self.bodies.values() if b.krate in ("stuart", "stuart_core")]
        self.closures_of = {}
        for b in self.bodies.values():
            if b.kind == "closure" and b.parent:
                self.closures_of.setdefault(b.parent, []).append(b)

    # ------------------------------------------------------------ lookups
    def get(self, path):
        """The unique body with this path, or None."""
        v = self.by_path.get(path, [])
        return v[0] if len(v) == 1 else (v[0] if v else None)

    def find(self, suffix, kind="fn"):
        return [b for b in self.local if b.kind == kind and b.path.endswith(suffix)]

    def impls_of(self, trait):
        """[(self type path, {trait item path: Body})] for every impl of `trait` in the workspace."""
        out = []
        for i in self.impls:
            if i["trait"] == trait:
                items = {}
                for ti, bid, path in i["items"]:
                    if bid in self.bodies:
                        items[ti.split("::")[-1]] = self.bodies[bid]
                out.append((i["self"], items, i))
        return out

    def variant_of(self, adt, discr):
        a = self.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v["discr"] == discr:
                    return v["name"]
        return None

    def variants(self, adt):
        a = self.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a else []


def is_dropflag_set(b):
    """Locals of `b` that are compiler-made drop flags: unnamed bools that only guard drops."""
    if b._dropflags is not None:
        return b._dropflags
    cand = {}
    for i, l in enumerate(b.locals):
        if i > b.argc and "name" not in l and b.types[l["ty"]]["s"] == "bool":
            cand[i] = True
    switched = set()
    for blk in b.blocks:
        for s in blk["st"]:
            if s["k"] == "assign":
                p, r = s["p"], s["r"]
                if p[0] in cand and not p[1]:
                    if not (r["k"] == "use" and r["o"]["k"] == "const"):
                        cand.pop(p[0], None)
                for o in rv_places(r):
                    if o[0] in cand:
                        cand.pop(o[0], None)
        t = blk["t"]
        if t["k"] == "switch" and t["d"]["k"] != "const":
            l = t["d"]["p"][0]
            if l in cand and not t["d"]["p"][1]:
                ob = b.blocks[t["otherwise"]]
                if t["d"]["k"] == "move":        # drop elaboration tests its flags by copy
                    cand.pop(l, None)
                    continue
                ok = not [s for s in ob["st"] if s["k"] == "assign" and s["r"]["k"] != "discr"] and ob["t"]["k"] in ("drop", "goto", "switch")
                if ob["t"]["k"] == "switch":
                    ok = ob["t"]["d"]["k"] != "const" and all(b.blocks[x[1]]["t"]["k"] in ("drop", "goto", "switch") for x in ob["t"]["targets"])
                if ok and ob["t"]["k"] == "goto":
                    ok = False
                if ok:
                    switched.add(l)
                else:
                    cand.pop(l, None)
        elif t["k"] == "call":
            for a in t["args"]:
                if a["k"] != "const" and "p" in a:
                    cand.pop(a["p"][0], None)
            if not t["dest"][1]:
                cand.pop(t["dest"][0], None)
    b._dropflags = {l for l in cand if l in switched}
    return b._dropflags


def op_place(o):
    return o["p"] if o["k"] in ("copy", "move") else None


def rv_ops(r):
    k = r["k"]
    if k in ("use", "repeat", "cast", "un"):
        return [r["o"]]
    if k == "bin":
        return [r["a"], r["b"]]
    if k == "agg":
        return r["ops"]
    return []


def rv_places(r):
    out = [op_place(o) for o in rv_ops(r) if op_place(o)]
    if r["k"] in ("ref", "discr"):
        out.append(r["p"])
    return out
