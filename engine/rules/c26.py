"""Dataflow of positions on the exploded MIR graph: every error a template function, a variable or the template parser can
return is traced to where its file, line and column were read; a function must report its own token's (not that of a token it
consumed), a token must record the position after the braces that open its tag, a parse error the parser's file and current
position, an error about a page the page's source. The counters of the character reader are interpreted on a text with
several lines, and the message must print file, line and column in this order."""
from .common import *
from world import Located, Parsing, Whole, Chars, SELF
from graph import Graph

READER = "stuart_core::parse::parser::Parser"
FIELDS = ("path", "line", "column")


def run(F, rep, tier):
    for name, self_ty, items, raw in builtin_impls(F, FN):
        b = items.get("execute")
        if b is not None:
            positions(F, rep, name or last(self_ty), b, SELF)
    b = F.get(TOKENPROC)
    if b is not None:
        positions(F, rep, "a variable", b, ("P", 1))
    parsing(F, rep)
    pages(F, rep)
    reader(F, rep)
    message(F, rep)


def explored(F, rep, b, w, nodes=150000):
    try:
        G = Graph(F, b, world=w, widen=6000, max_nodes=nodes, inline=lambda x, f: x.krate in ("stuart_core", "stuart"))
    except TooBig:
        rep.ok("positions", loc(b), "too many states; not decided")
        return None
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate in ("stuart", "stuart_core")})
    return G


def positions(F, rep, name, b, own):
    w = Located(F, own)
    if explored(F, rep, b, w) is None:
        return
    for got, (n, env) in sorted(w.errors.items(), key=lambda x: str(x[0])):
        if None in got:
            rep.ok("positions", loc(b), "%s: an error of unknown origin (%s); not decided" % (name, "/".join(map(str, got))))
        elif got in (("own.path", "own.line", "own.column"), ("theirs.path", "theirs.line", "theirs.column")):
            rep.ok("positions", loc(b), "%s: errors carry %s position" % (name, "its own" if got[0] == "own.path" else "the inner token's"))
        else:
            rep.bad("positions", "%s/%s" % (name, ",".join(got)), loc(b), "an error of %s carries %s" % (name, told(got)))
    for got, n in sorted(w.moved.items(), key=lambda x: str(x[0])):
        if got == ("own.path", "own.line", "own.column"):
            rep.bad("positions", "%s/moved" % name, loc(b), "an error of a tag inside the block of %s is moved to the position of %s" % (name, name))


def told(got):
    return ", ".join("the %s %s" % (f, {"own." + f: "of its own tag", "theirs." + f: "of the inner token", "next." + f: "of a token it consumed"}.get(x, x)) for f, x in zip(FIELDS, got))


def parsing(F, rep):
    for path, i in (("stuart_core::fs::Node::create_from_file", 1), ("stuart_core::parse::parse_html", 2), ("stuart_core::parse::markdown::parse_markdown", 2)):
        b = F.get(path)
        if b is None or b.argc < i:
            rep.ok("parser", path, "not found; not decided")
            continue
        w = Parsing(F, i)
        if explored(F, rep, b, w) is None:
            continue
        whole = "create_from_file" in path
        for tok, n in sorted(w.tokens.items(), key=lambda x: str(x[0])):
            kind, where = tok[0], tok[1:]
            if kind in ("Function", "Variable") or where[0] != "own.path":
                verdict(rep, "token", "%s/%s" % (last(path), kind or "?"), n.loc(), where, "the token of a %s" % (kind or "text").lower(), ("open",), kind in ("Function", "Variable"))
            else:
                rep.ok("token", n.loc(), "text: not part of any message")
        for got, (n, env) in sorted(w.errors.items(), key=lambda x: str(x[0])):
            if got[1:] == ("0", "0") and whole:
                got = (got[0], None, None)      # JSON: no position is known
            verdict(rep, "parse-error", last(path), loc(b), got, "a parse error", ("open", "tag"), "html" in path)


def verdict(rep, rule, key, where, got, what, phases, strict):
    if got[0] not in (None, "own.path"):
        return rep.bad(rule, key + "/path", where, "%s carries the path %s, not that of the file being parsed" % (what, got[0]))
    l, c = got[1:]
    for f, x in (("line", l), ("column", c)):
        if x is None:
            continue
        if "@" in x:
            g, at = x.split("@")
            if g != f:
                return rep.bad(rule, "%s/%s-is-%s" % (key, f, g), where, "the %s of %s is the parser's %s" % (f, what, g))
            if at not in phases:
                return rep.bad(rule, "%s/%s@%s" % (key, f, at), where, "the %s of %s is the position %s" % (f, what, {"start": "before anything was read", "close": "where an earlier tag ended", "tag": "behind the tag, or inside it", "open": "before the construct"}[at]))
        elif strict:
            return rep.bad(rule, "%s/%s=%s" % (key, f, x), where, "the %s of %s is always %s" % (f, what, x))
    rep.ok(rule, where, "%s: %s" % (what, "/".join(map(str, got))))


def pages(F, rep):
    for path in ("stuart_core::fs::Node::process", "stuart_core::fs::Node::preprocess_markdown"):
        b = F.get(path)
        if b is None:
            rep.ok("page", path, "not found; not decided")
            continue
        w = Whole(F)
        if explored(F, rep, b, w) is None:
            continue
        for got, (n, env) in sorted(w.errors.items(), key=lambda x: str(x[0])):
            if got in (None, "own.source", "theirs.path"):
                rep.ok("page", loc(b), "errors name %s" % {None: "something not decided", "own.source": "the page's own file", "theirs.path": "the token's file"}[got])
            else:
                rep.bad("page", "%s/%s" % (last(path), got), loc(b), "an error about a page names %s, not the page's file" % got)


def reader(F, rep):
    new, step, where = (F.get(READER + "::" + x) for x in ("new", "next", "location"))
    if None in (new, step, where):
        rep.ok("reader", READER, "not recognised; not decided")
        return
    rep.saw(new.path, step.path, where.path)

    def go(b, state, char=None):
        w = Chars(F, state, char)
        Graph(F, b, world=w, widen=200, max_nodes=2000, inline=lambda x, f: x.krate == "stuart_core")
        return w.out
    out = go(new, {})
    state = {k: v for k, v in out[0][0].items() if isinstance(v[1], int)} if len(out) == 1 else None
    if not state:
        rep.ok("reader", loc(new), "the initial position is not recognised; not decided")
        return
    text, line, first, col = "ab\ncd\n\ne\nfgh", 1, None, 0
    for i, ch in enumerate(text):
        out = [o for o in go(step, state, ch) if o[0].get(()) in (None, ("v", "Ok"), ("v", "Some"))]
        if len(out) != 1:
            rep.ok("reader", loc(step), "reading %r: the new position is not determined; not decided" % ch)
            return
        state = out[0][1]
        at = go(where, state)
        got = [at[0][0].get((f,)) for f in ("0", "1")] if len(at) == 1 else [None]
        if None in got or any(not isinstance(x[1], int) for x in got):
            rep.ok("reader", loc(where), "the position is not recognised; not decided")
            return
        l, c = got[0][1], got[1][1]
        first = c if first is None else first
        if l != line:
            rep.bad("reader", "line", loc(step), "character %d of %r is on line %d, but is counted on line %d" % (i + 1, text, line, l))
            return
        if c != first + col:
            rep.bad("reader", "column", loc(step), "character %d of its line is counted in column %d, that of the first line in column %d (text %r)" % (col + 1, c, first + col, text))
            return
        line, col = (line + 1, 0) if ch == "\n" else (line, col + 1)
    rep.ok("reader", loc(step), "lines and columns are counted alike on every line")
    back = F.get(READER + "::traceback")
    if back is not None:
        w = Chars(F, {("line",): ("c", 3), ("column",): ("c", 5), ("next_line",): ("c", 6), ("next_column",): ("c", 7)})
        Graph(F, back, world=w, widen=200, max_nodes=2000, inline=lambda x, f: x.krate == "stuart_core")
        for r, s in w.out:
            got = (r.get(("line",)), r.get(("column",)))
            bad = any(x is not None and x[1] != y for x, y in zip(got, (3, 5)))
            rep.check(not bad, "reader", "traceback", loc(back), "the parser's errors carry its own line and column")
    # nothing else may consume characters behind the counters' back
    for b in F.local:
        if b.krate != "stuart_core" or b is step or not re.search(r"parse::parser::Parser\b", b.path):
            continue
        writes = any(s["k"] == "assign" and any(isinstance(e, list) and e[0] == "f" and "line" in e[2] for e in s["p"][1]) for bl in b.blocks for s in bl["st"])
        for bl in b.blocks:
            t = bl["t"]
            fn = t["f"].get("fn") if t["k"] == "call" and t["f"]["k"] == "const" else None
            if fn and "Peekable" in " ".join(map(str, [fn["path"]] + [b.types[x]["s"] if isinstance(x, int) else x for x in fn.get("targs") or ()])):
                if last(fn["path"]) in ("next", "next_if", "next_if_eq", "nth", "advance_by", "last", "count", "collect", "for_each", "next_back") and not writes:
                    rep.bad("reader", "%s/%s" % (b.path, last(fn["path"])), "%s:%d" % tuple(t["sp"][:2]), "characters are consumed without counting lines and columns")


def message(F, rep):
    for b in F.local:
        if not re.search(r"TracebackError(<.*>)? as .*StuartError>::display$", b.path):
            continue
        a = An(F, b, inline=lambda x, f: False)
        rep.saw_graph(a)
        good = []
        for n, p in a.events(r"write_fmt$"):
            fmt = parse_fmt(a.arg(n, 1)) or []
            ix = {}
            for i, x in enumerate(fmt):
                if isinstance(x, str):
                    continue
                fs = {y[2] for y in walk(x) if y[0] == "field" and y[2] in FIELDS and term_root(y) == params(b)[0]}
                if len(fs) == 1:
                    ix.setdefault(next(iter(fs)), i)
            if "line" in ix and "column" in ix:
                if not ix["line"] < ix["column"] or "path" in ix and not ix["path"] < ix["line"]:
                    rep.bad("message", "order", a.where(n), "the position is printed in the order %s" % ", ".join(sorted(ix, key=ix.get)))
                lossy = sorted({last(y[1]) for i, x in enumerate(fmt) if not isinstance(x, str) and i < ix["line"] for y in walk(x)
                                if y[0] == "call" and isinstance(y[1], str) and re.search(r"Path(Buf)?::(file_name|file_stem|parent|extension|file_prefix)$", y[1])})
                if lossy:
                    rep.bad("message", "path", a.where(n), "the message does not name the file, only its %s" % "/".join(lossy))
                good.append(n)
        ids = {n.id for n in good}
        left = a.reach([a.g.entry], lambda n: n.id in ids)
        ends = [e for e in a.exits() if e in left or e.id in {getattr(x, "id", x) for x in left}]
        if good and ends:
            rep.bad("message", "missing", loc(b), "a message can be printed without file, line and column")
        else:
            rep.ok("message", loc(b), "every message contains file:line:column" if good else "not recognised; not decided")
