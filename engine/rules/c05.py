"""Typestate analysis on the exploded MIR graph, with the stack of frames modelled. Block functions: a stream of tokens
that ends inside the block must lead to an error, the block must end exactly when its own frame is gone, and its frame
must carry the name its `end` asks for. `end`: for names of the innermost frame derived from the label it carries (the
same, another, a prefix of it, the other kind of block, the base frame, no frame), success is possible only on the
matching one, with the section stored under that very label. `else`: only on a conditional's frame. Pages: every
sequence of tokens that leaves a block open must lead to an error."""
from .common import *
from .c06 import conditionals, judge, explore
from world import *

KEYS = r"eof|past-end|left-early|not-entered|no-frame|frame-name|error-dropped"


def run(F, rep, tier):
    conditionals(F, rep, KEYS)
    fs = functions(F)
    if fs.get("for", (0, None))[1] is not None:
        judge(F, rep, "for", fs["for"][1], Loop(F), KEYS)
    sections(F, rep, fs)
    pages(F, rep)


def shapes(F, pb):
    """How the parser stores its argument: {"String" | "Ident": {field: abstract value}}."""
    a = An(F, pb)
    out = {}
    for e in a.exits("Ok"):
        for x in walk(ret(a, e)):
            if x[0] != "agg" or not x[2] or last(x[1]) in ("Ok", "Some"):
                continue
            fields, kinds = {}, set()
            for f, val in x[2]:
                k = {y[2][:-2] for y in walk(val) if y[0] == "field" and y[2] in ("String.0", "Ident.0")}
                if k:
                    kinds |= k
                    fields[f] = ("c", "s:x")
                elif val[0] == "const" and not isinstance(val[1], str):
                    fields[f] = ("c", val[1])
                elif val[0] == "agg" and not val[2]:
                    fields[f] = ("v", last(val[1]))
            if len(kinds) == 1:
                out[next(iter(kinds))] = fields
    return out


def labelled(fields, label):
    return {f: ("c", "s:" + label) if v == ("c", "s:x") else v for f, v in fields.items()}


# (label, names of the frames from the outermost to the innermost, is it the matching end?)
QUOTED = [("x", ["base", "begin:x"], True), ("x", ["base", "begin:y", "begin:x"], True)] + [("x", f, False) for f in (
    ["base", "begin:xy"], ["base", "begin:"], ["base", "begin:x", "begin:y"], ["base", "begin:x", "begin:yx"], ["base", "begin:x", "for:x"], ["base", "begin:x", "ifeq:x:x"],
    ["base", "x:y"], ["base", "begin:x", "ifdefined:begin:x"], ["base"], [])]
BARE = [("for", ["base", "for:i"], True), ("ifeq", ["base", "ifeq:a:b"], True), ("ifdefined", ["base", "for:i", "ifdefined:a"], True)] + [(l, f, False) for l, f in (
    ("for", ["base", "for:i", "ifeq:for:for"]), ("for", ["base", "for:i", "begin:for"]), ("for", ["base", "for:i", "begin:for:x"]), ("ifeq", ["base", "ifeq:a:b", "ifne:a:b"]),
    ("if", ["base", "ifeq:a:b"]), ("ifeq", ["base", "ifeq:a:b", "for:ifeq"]), ("ifdefined", ["base", "ifdefined:a", "begin:ifdefined"]), ("", ["base", "begin:x"]), ("", ["base", "for:i"]),
    ("for", ["base"]), ("for", []), ("base", ["base"]), ("ifge", ["base", "ifge:a:b", "ifgt:a:b"]), ("f", ["base", "for:i"]))]
INSIDE = [(["base", n + ":a:b"], True) for n in ("ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle")] + [(["base", "ifdefined:a"], True)] + [(f, False) for f in (
    ["base"], [], ["base", "for:i"], ["base", "begin:x"], ["base", "ifeq:a:b", "for:i"], ["base", "ifeq:a:b", "begin:if"], ["base", "for:if"], ["base", "ifdefined:a", "begin:ifeq:a"], ["base", "ifeq:a:b", "for:ifeq"])]


def sections(F, rep, fs):
    pb, eb = fs.get("end", (None, None))
    if pb is not None and eb is not None:
        sh = shapes(F, pb)
        for kind, cases in (("String", QUOTED), ("Ident", BARE)):
            if kind not in sh or ("c", "s:x") not in sh[kind].values():
                rep.ok("end", loc(eb), "the label of `end` is not recognised; not decided")
                continue
            for label, frames, match in cases:
                w = explore(F, rep, eb, Closing(F, frames, labelled(sh[kind], label)))
                end_case(rep, eb, w, kind, label, frames, match)
    pb, eb = fs.get("else", (None, None))
    if eb is not None:
        for frames, match in INSIDE:
            w = explore(F, rep, eb, Closing(F, frames, {}))
            if w is None:
                continue
            what = "`else` directly inside %s" % (frames[-1:] or "nothing")
            if not match and w.oks:
                rep.bad("else", "accepted/" + (frames[-1] if frames else "none"), w.oks[0][0].loc(), what + " is accepted")
            elif any(g(e, "h") != len(frames) for _, e in w.oks):
                rep.bad("else", "stack", loc(eb), "`else` changes the stack of blocks")
            else:
                rep.ok("else", loc(eb), what + (": accepted" if w.oks else ": rejected"))
    pb, eb = fs.get("begin", (None, None))
    if pb is not None and eb is not None:
        sh = shapes(F, pb)
        if ("c", "s:x") in sh.get("String", {}).values():
            for label in ("x", "y z"):
                w = explore(F, rep, eb, Closing(F, ["base"], labelled(sh["String"], label)))
                if w is None:
                    continue
                bad = [(n, e) for n, e in w.oks if g(e, "h") != 2 or prefixed(g(e, "pushed", UNK_CH), "begin:" + label) is False or UNK_CH not in g(e, "pushed", UNK_CH) and g(e, "pushed") != "begin:" + label]
                if bad:
                    rep.bad("begin", "frame", bad[0][0].loc(), "`begin` does not open exactly one block named after its label (got %r)" % g(bad[0][1], "pushed"))
                else:
                    rep.ok("begin", loc(eb), "`begin` opens one block named after its label")


def end_case(rep, eb, w, kind, label, frames, match):
    if w is None:
        return
    what = "`end(%s)` on %s" % ('"%s"' % label if kind == "String" else label, frames[-1:] or "an empty stack")
    key = "%s/%s/%s" % (kind, label, "+".join(frames) or "none")
    if not match:
        if w.oks:
            rep.bad("end", "accepted/" + key, w.oks[0][0].loc(), what + " is accepted")
        else:
            rep.ok("end", loc(eb), what + ": " + ("rejected" if not w.undecided else "not decided"))
        return
    for k, (n, d) in w.violations.items():
        rep.bad("end", k, n.loc(), d)
    h = len(frames)
    for n, e in w.oks:
        if g(e, "h") != h - 1:
            rep.bad("end", "stack/" + key, n.loc(), what + " does not close exactly one block")
        elif kind == "String" and (g(e, "sec") is None or UNK_CH not in g(e, "sec") and g(e, "sec") != label):
            rep.bad("end", "section/" + key, n.loc(), what + " does not make the section available under its name (%r)" % g(e, "sec"))
        elif kind == "String" and g(e, "content") not in (UNK_CH, OUT + str(h)):
            rep.bad("end", "content/" + key, n.loc(), what + " stores something else than the block's own output")
        elif kind == "Ident" and g(e, "sec") is not None:
            rep.bad("end", "section/" + key, n.loc(), what + " makes a section available")
        else:
            rep.ok("end", n.loc(), what + ": closes one block")


def pages(F, rep):
    cg = CallGraph(F)
    roots = {}
    pred = {}
    for i, out in cg.succ.items():
        for s in out:
            s = s[0] if isinstance(s, tuple) else s
            pred.setdefault(s if isinstance(s, str) else s.id, set()).add(i)
    todo = [b for b in F.bodies.values() if b.krate == "stuart_core" and any(bl["t"]["k"] == "call" and (bl["t"]["f"].get("fn") or {}).get("path", "").endswith("TokenIter::new") for bl in b.blocks)]
    seen = set()
    while todo:
        b = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        helper = b.kind != "fn" or any(re.search(r"Scope|TokenIter|LocatableToken", b.types[b.locals[i + 1]["ty"]]["s"]) for i in range(b.argc)) 
        up = [F.bodies[i] for i in pred.get(b.id, ()) if i in F.bodies]
        if helper and up:
            todo += up
        else:
            roots[b.id] = b
    for b in roots.values():
        w = Page(F)
        try:
            judge(F, rep, last(b.path), b, w, r"open-block|error-dropped")
        except TooBig:
            pass
