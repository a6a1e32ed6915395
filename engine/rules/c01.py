"""Fallibility dataflow on the exploded MIR graph: every construct of the two crates that can panic (unwrap, expect, indexing,
slicing, removal, integer underflow, division by zero, explicit panics) and that the build, the loading of a project or the
display of an error can reach is an obligation. What is unwrapped is traced to the operation it comes from; when that
operation is one that fails on project content (lookups of variables, paths and JSON fields, conversions of JSON values and
arguments, parsing, decoding, files, searching in text), a branch fact that establishes success, or that constrains the very
thing looked into, must hold on every path to the construct; indices need a length fact that suffices, slices of text a bound
that was found in that text. A branch on the next character that panics for the characters it does not list is compared with
the set of characters at which the text before it ends (the predicate is interpreted for every one of them). Library functions
known to panic on some dates and formats may only be reached under catch_unwind."""
from .common import *
from facts import op_place
from graph import Graph
from world import Chars

SITE = re.compile(r"(^|::)(Option|Result)(<.*>)?::(unwrap|expect|unwrap_err|expect_err)$")
INDEX = re.compile(r"Index(Mut)?(<.*>)?(>)?::index(_mut)?$")
CUT = re.compile(r"(^|::)(String|Vec|str)(<.*>)?::(split_at|split_at_mut|truncate|remove|swap_remove|drain|replace_range|split_off|insert|insert_str)$")
PANICS = re.compile(r"^core::(panicking|option::(unwrap|expect)_failed|result::unwrap_failed|str::slice_error_fail|slice::index::\w*fail)|^std::(rt::(begin_)?panic|panicking)|^core::cell::panic_|^alloc::vec::.*assert_failed")
EXPLICIT = re.compile(r"^core::panicking::|^std::(rt::(begin_)?panic|panicking)")
OUT = re.compile(r"plugins::js|::serve|stuart::new\b|stuart::(test|tests)\b|::tests?::")

# operations that change neither what is there nor whether it is there
PEEL = re.compile(r"(^|::)(Option|Result)(<.*>)?::(as_ref|as_mut|as_deref|as_deref_mut|cloned|copied|map|map_err|ok|err|ok_or|ok_or_else|inspect|take|unwrap_or_default)$|::clone$|::(branch|from_residual)$")

# what fails on project content: the accessor looks into its first argument, under its second one if there is one
LOOKUPS = [
    (re.compile(r"Scope(<.*>)?::get_variable$"), "a variable that may be undefined"),
    (re.compile(r"fs::Node::get_at_path$"), "a path that may not exist"),
    (re.compile(r"fs::Node::(children|contents|metadata)$"), "what only one kind of node has"),
    (re.compile(r"RawArgument::as_(variable|string|ident|integer)$"), "an argument of another kind"),
    (re.compile(r"(LocatableToken|Token)::as_(raw|function|variable)$"), "a token of another kind"),
    (re.compile(r"ParsedContents::\w+$"), "contents of another kind"),
    (re.compile(r"humphrey_json::.*::(as_str|as_object|as_array|as_number|as_bool|as_f64|as_i64|get|get_mut|as_\w+_mut|get_index)$"), "a JSON value of another kind, or a missing field"),
    (re.compile(r"(serde_json|toml)::.*::(as_\w+|get|get_mut|pointer)$"), "a value of another kind, or a missing field"),
    (re.compile(r"(hash::map::HashMap|btree::map::BTreeMap|HashMap|BTreeMap)(<.*>)?::(get|get_mut|remove|get_key_value|remove_entry|first_key_value|last_key_value)$"), "a key that may be missing"),
    (re.compile(r"(^|::)str::(parse|strip_prefix|strip_suffix|find|rfind|split_once|rsplit_once|get|trim_prefix|char_indices|bytes)$|core::str::(converts::|traits::)?from_utf8$|String(<.*>)?::from_utf8(_lossy_owned)?$|FromStr>?::from_str$"), "text that may not have this form"),
    (re.compile(r"OsStr(ing)?::(to_str|into_string)$|Path(Buf)?::(to_str|extension|file_stem|strip_prefix)$"), "a path that may not have this form"),
    (re.compile(r"(^|::)(slice|\[T\]|Vec)(<.*>)?(::<impl \[T\]>)?::(first|last|get|pop|first_mut|last_mut|get_mut|split_first|split_last)$|VecDeque(<.*>)?::(pop_front|pop_back|front|back|get)$"), "an element that may be missing"),
    (re.compile(r"Iterator>?::(next|last|nth|min|max|min_by|max_by|min_by_key|max_by_key|find|find_map|position|reduce|rposition|next_back|nth_back|last)$|Peekable(<.*>)?::(peek|next_if)$|Chars(<.*>)?::(next|next_back)$"), "an element that may be missing"),
    (re.compile(r"(convert::)?(TryInto|TryFrom)(<.*>)?>?::try_(into|from)$"), "a number that may not fit"),
    (re.compile(r"(^|::)char::(methods::.*::)?(to_digit|from_digit|from_u32)$|core::char::\w*::?from_\w+$"), "a character of another kind"),
    (re.compile(r"::checked_(add|sub|mul|div|rem|neg)(_signed)?$"), "an arithmetic result that may not fit"),
    (re.compile(r"^std::fs::|std::fs::\w+::|^std::env::(var|var_os|current_dir)|std::io::\w+::|process::(Command|Child)::|process::ExitStatus::code|^std::path::Path(Buf)?::(canonicalize|read_dir|metadata|read_link)$"), "an operation of the system that may fail"),
    (re.compile(r"^(toml|serde_json|humphrey_json)::(from_str|from_slice|de::from_str|from)$|humphrey_json::.*::(parse|from_json)$|Value::parse$"), "text that may not parse"),
    (re.compile(r"(NaiveDate|NaiveTime|NaiveDateTime|DateTime|dateparser|TimeZone).*::(parse\w*|from_\w+|and_\w+|with_\w+)$|^dateparser::"), "a date that may not exist"),
    (re.compile(r"partial_cmp$"), "values that may not be comparable"),
]
KINDS = {"as_str": {"String"}, "as_object": {"Object"}, "as_array": {"Array"}, "as_number": {"Number"}, "as_bool": {"Bool"}, "as_variable": {"Variable"}, "as_string": {"String"}, "as_ident": {"Ident"}, "as_integer": {"Integer"}, "as_raw": {"Raw"}, "as_function": {"Function"}}
OTHERS = {"file_name", "extension", "file_stem", "parent", "read", "metadata", "read_to_string", "open", "parse_html", "parse_markdown", "from_str", "is_file", "is_dir", "exists", "file_type", "symlink_metadata", "path", "map", "as_ref"}
TEXTUAL = {"parse", "strip_prefix", "strip_suffix", "find", "rfind", "split_once", "rsplit_once", "to_digit"}
WEAK = re.compile(r"::(is_null|is_empty|is_ascii)$|^(is_null|is_empty)$")
FINDERS = re.compile(r"(^|::)(find|rfind|len|char_indices|match_indices|rmatch_indices|floor_char_boundary|ceil_char_boundary|position|rposition|len_utf8|partition_point|binary_search\w*|next|min|max|saturating_sub|enumerate)$")
ERRORS = re.compile(r"(ProcessError|ParseError|FsError|TracebackError|StuartError|Error\b)")


def run(F, rep, tier):
    structural(F, rep)
    contained(F, rep, CallGraph(F))


def own(x):
    return x.krate in ("stuart", "stuart_core")


def reached(F):
    cg = CallGraph(F)
    roots = [b for b in (F.get(BUILD), F.get(INIT)) if b is not None]
    for t in F.traits_named("StuartError") if hasattr(F, "traits_named") else ():
        roots += t
    for b in F.local:
        if own(b) and b.kind != "closure" and re.search(r"(StuartError>?::(display|print)|FunctionParser>::(parse|can_parse)|functions::Function>::execute|stuart::(build|main|bench))$", b.path):
            roots.append(b)
    seen = cg.reachable(roots, stop=lambda x: bool(OUT.search(x.path)))
    return cg, seen


def structural(F, rep):
    cg, seen = reached(F)
    groups = {}
    for i in seen:
        b = F.bodies.get(i)
        if b is None or not own(b) or not b.blocks or OUT.search(b.path):
            continue
        r = root_fn(F, b)
        groups.setdefault(r.id, r)
    w = Whence(F, rep, cg, groups)
    for b in sorted(groups.values(), key=lambda b: b.path):
        w.body(b)


def contained(F, rep, cg):
    """What is known to panic on some content in the libraries that parse and format dates is called under catch_unwind only."""
    caught = set()
    for b in F.local:
        if own(b):
            for bl in b.blocks:
                t = bl["t"]
                if t["k"] == "call" and t["f"]["k"] == "const" and last((t["f"].get("fn") or {}).get("path", "")) == "catch_unwind":
                    for o in t["args"]:
                        p = op_place(o)
                        if p:
                            ty = b.types[b.locals[p[0]]["ty"]]
                            caught.update(x.id for x in F.local if x.kind == "closure" and root_fn(F, x) is root_fn(F, b) and (ty.get("def") == x.id or x.path in ty["s"] or "losure" in ty["s"]))
    roots = [b for b in (F.get(BUILD), F.get(INIT)) if b is not None]
    roots += [b for b in F.local if own(b) and b.kind != "closure" and re.search(r"functions::Function>::execute$|FunctionParser>::parse$", b.path)]
    seen = cg.reachable(roots, stop=lambda x: x.id in caught or bool(OUT.search(x.path)))
    for i in seen:
        b = F.bodies.get(i)
        if b is None or not own(b):
            continue
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] != "call" or bl.get("cleanup"):
                continue
            fn = t["f"].get("fn") if t["f"]["k"] == "const" else None
            p = (fn or {}).get("path", "")
            tys = [b.types[b.locals[op_place(o)[0]]["ty"]]["s"] for o in t["args"] if op_place(o)]
            what = "dateparser, which overflows on some dates" if re.search(r"^dateparser::", p) else "a date with a format that may not be valid" if (p.endswith("::to_string") or p.endswith("::new_display") and any(q == "alloc::fmt::format" for q, *_ in cg.ext.get(b.id, ()))) and any("DelayedFormat" in y for y in tys) else None
            if what:
                rep.bad("contain", "%s/%s" % (root_fn(F, b).path, last(p)), loc(b), "%s: %s is called outside of catch_unwind" % (what, last(p)), [x for x in cg.chain(seen, b)])
    rep.ok("contain", "%d functions" % len(seen), "%d closures run under catch_unwind" % len(caught))


def sites(b):
    for bl in b.blocks:
        t = bl["t"]
        if bl.get("cleanup"):
            continue
        if t["k"] == "assert" and t["msg"] in ("overflow-sub", "div-zero", "rem-zero", "bounds"):
            return True
        if t["k"] == "call":
            fn = t["f"].get("fn") if t["f"]["k"] == "const" else None
            p = (fn or {}).get("path", "")
            if SITE.search(p) or INDEX.search(p) or CUT.search(p) or EXPLICIT.search(p):
                return True
    return False


def peel(t):
    while True:
        if t[0] == "call" and t[2] and PEEL.search(t[1]):
            t = t[2][0]
        elif t[0] == "cast":
            t = t[2]
        else:
            return t


def source(t):
    """The operation an optional value comes from, also through what can only drop it."""
    t = peel(t)
    while t[0] == "call" and t[2] and re.search(r"(^|::)(Option|Result)(<.*>)?::(filter|and_then|flatten)$", t[1]):
        t = peel(t[2][0])
    return t


def lookup(t):
    """(what is looked into, under what key, accessor, description) of a fallible operation, or None."""
    if t[0] != "call":
        return None
    for p, what in LOOKUPS:
        if p.search(t[1]):
            return (t[2][0] if t[2] else None, t[2][1] if len(t[2]) > 1 else None, last(t[1]), what)
    return None


def stable(t):
    return not any(x[0] in ("phi", "upd", "unknown") for x in walk(t))


def fresh(t):
    """Whether the term is a collection or text whose size follows from its construction."""
    return t[0] in ("agg", "const")


class Whence:
    def __init__(self, F, rep, cg, groups):
        self.F, self.rep, self.cg, self.groups = F, rep, cg, groups
        self.ans = {}
        self.fields = {}
        self.callers = {}
        for i in groups:
            for c, sp in cg.succ.get(i, ()):
                self.callers.setdefault(c.id, set()).add(i)
        for b in F.local:
            if b.kind == "closure":
                r = root_fn(F, b)
                for c, sp in cg.succ.get(b.id, ()):
                    self.callers.setdefault(c.id, set()).add(r.id)

    def an(self, b):
        if b.id not in self.ans:
            try:
                self.ans[b.id] = An(self.F, b, inline=lambda x, f: x.kind == "closure" and own(x), max_nodes=30000)
            except TooBig:
                self.ans[b.id] = None
        return self.ans[b.id]

    def body(self, b):
        F, rep = self.F, self.rep
        mine = [b] + closures_of(F, b)
        if not any(sites(x) for x in mine):
            return
        a = self.an(b)
        if a is None:
            rep.ok("sites", loc(b), "%s: too many paths; not decided" % b.path)
            return
        rep.saw_graph(a)
        done = {}
        for n, a in self.nodes(a, mine):
            if n.kind == "h" or not own(n.frame.body) or n.body.blocks[n.bb].get("cleanup"):
                continue
            try:
                v = self.site(a, n)
            except (IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                v = (True, "sites", "a construct of an unforeseen shape (%s); not decided" % e)
            if v is None:
                continue
            k = (n.frame.body.id, n.bb)
            old = done.get(k)
            if old is None or old[0] and not v[0]:
                done[k] = v + (n,)
        for good, kind, what, n in done.values():
            at = self.ans[self.home[id(n)]].where(n)
            if good:
                rep.ok(kind, at, what)
            else:
                a = self.ans[self.home[id(n)]]
                p = a.path_to([a.g.entry], lambda x: x is n)
                rep.bad(kind, "%s/%s" % (root_fn(F, n.frame.body).path, what[:80]), at, what, a.path_lines(p))

    def nodes(self, a, mine):
        """The nodes of a function and of those of its closures that its graph does not contain."""
        self.home = {}
        seen = {n.frame.body.id for n in a.g.nodes}
        out = [(n, a) for n in a.g.nodes]
        for c in mine[1:]:
            if c.id not in seen and sites(c):
                b = self.an(c)
                if b is not None:
                    self.rep.saw_graph(b)
                    seen |= {n.frame.body.id for n in b.g.nodes}
                    out += [(n, b) for n in b.g.nodes]
        for n, b in out:
            self.home[id(n)] = b.body.id
        return out

    # ------------------------------------------------------------------ obligations
    def site(self, a, n):
        t = n.term
        if t["k"] == "assert":
            return self.arith(a, n, t)
        if not n.call or t["k"] != "call":
            return None
        p = n.call[0] or ""
        if SITE.search(p):
            x = peel(a.arg(n, 0))
            j = accessor(n)
            if j and not (x[0] == "call" and last(x[1]) == last(j)) and not self.established(a, n, x):
                x = ("call", j, (x,))
            if p.endswith("_err"):
                return (True, "unwrap", "the error of a result is taken; not decided")
            return self.unwrap(a, n, x)
        if INDEX.search(p):
            return self.index(a, n)
        if CUT.search(p):
            return self.cut(a, n, p)
        if EXPLICIT.search(p):
            return self.explicit(a, n)
        return None

    def unwrap(self, a, n, x):
        if x[0] == "agg":
            return (True, "unwrap", "what is unwrapped was constructed there")
        if x[0] == "field" and not self.established(a, n, x) and self.lacking(x[2], a.body.id) and not a.every_path_has(n, lambda f: any(contains(y, x) for y in f[1:3] if isinstance(y, tuple))):
            return (False, "unwrap", "the optional field `%s`, whose absence is an error elsewhere, is unwrapped" % x[2])
        if x[0] == "phi" or x[0] != "call":
            l = None
        else:
            l = lookup(x)
        if self.established(a, n, x):
            return (True, "unwrap", "a test of the same value precedes on every path")
        if source(x) is not x:
            x = source(x)
            l = lookup(x)
        if x[0] == "call" and l is None:
            b = self.target(a, x)
            if b is not None and (self.fails(b) or self.asks(b)):
                if x[2] and not stable(x[2][0]) and a.every_path_has(n, lambda f: any(y[0] == "call" and last(y[1]) in (last(x[1]), "is_empty", "len", "at_end", "is_eof", "eof") and y[2] and bare(y[2][0])[0] != "call" and same_root(y[2][0], x[2][0]) for z in f[1:3] if isinstance(z, tuple) for y in walk(z))):
                    return (True, "unwrap", "the state of what is asked is tested before; not decided")
                if x[2] and not stable(x[2][0]) and self.fails(b):
                    return (True, "unwrap", "not decided")
                if x[2] and stable(x[2][0]) and a.every_path_has(n, lambda f: any(roots(y, x[2][0]) for y in f[1:3] if isinstance(y, tuple))):
                    return (True, "unwrap", "the state of what is asked is tested before; not decided")
                return (False, "unwrap", "the failure of %s, which can fail on project content, is turned into a panic" % last(x[1]))
        if l is None:
            return (True, "unwrap", "what is unwrapped is not an operation that fails on project content, or of unknown origin; not decided [%s]" % (x[1] if x[0] == "call" else x[0]))
        R, K, acc, what = l
        if R is None:
            return (False, "unwrap", "the result of %s is unwrapped: %s" % (acc, what))
        if R[0] == "field" and R[2] in ("stack", "stack_frames", "frames") or R[0] in ("phi", "upd") and re.search(r"'stack'", str(R)[:2000]) and acc in ("pop", "last", "last_mut"):
            return (True, "unwrap", "the stack of a page holds its base frame; not decided")
        if acc in ("next", "next_back", "last", "first") and R[0] == "call" and re.search(r"::(split|splitn|rsplit|rsplitn|split_terminator|chain|repeat|once|ancestors|lines_any)$", R[1]) and not R[1].endswith(("split_terminator",)):
            return (True, "unwrap", "a text split at a pattern has at least one part")
        if all(y[0] == "const" for y in (x[2] or ())):
            return (True, "unwrap", "the operation is on constants")
        if not self.mine(x):
            return (True, "unwrap", "on values that do not come from the project; not decided")
        if stable(x) and self.denied(a, n, x):
            return (False, "unwrap", "the result of %s is unwrapped where it is known to have failed: %s" % (acc, what))
        if self.guarded(a, n, R, K, acc):
            return (True, "unwrap", "%s: what is looked into is tested on every path" % acc)
        return (False, "unwrap", "the result of %s is unwrapped without a test on every path: %s" % (acc, what))

    def mine(self, x):
        """Whether a term derives from something given to the function (not from constants or internal state only)."""
        return any(y[0] in ("param", "call") for y in walk(x)) and not any(y[0] == "call" and re.search(r"Mutex|RwLock|OnceCell|LOGGER|OnceLock", y[1]) or y[0] == "field" and y[2] in ("streams",) for y in walk(x))

    def target(self, a, x):
        for n in a.g.nodes:
            if n.call and n.term["k"] == "call" and n.kind == "b" and n.call[0] == x[1] or n.call and n.call[2] is not None and n.call[2].path == x[1]:
                return n.call[2]
        return self.F.get(x[1])

    def fails(self, b):
        """A function of the crates whose declared error is one of the template errors, and which constructs or passes one on."""
        if not own(b):
            return False
        ty = b.ty(0)["s"]
        return bool(re.search(r"Result<", ty) and re.search(r"TracebackError|ProcessError|ParseError|fs::Error|dyn stuart::error::StuartError|StuartError", ty))

    def lacking(self, name, here):
        """Whether another function reports an error when the optional field of this name is empty."""
        if name not in self.fields:
            self.fields[name] = set()
            for i, b in self.groups.items():
                a = self.an(b) if not OUT.search(b.path) else None
                bad = {e.id for e in a.exits("Err")} if a is not None else ()
                for m in a.g.nodes if bad else ():
                    for k, lab in m.succ:
                        if lab and any(f[0] == "variant" and f[1][0] == "field" and f[1][2] == name and (f[2] == "None") == f[3] and f[2] in ("Some", "None") for f in a.atoms(m, k, lab)):
                            r = a.reach([k])
                            if r & bad and not any(e.id in r and e.id not in bad for e in a.exits()):
                                self.fields[name].add(i)
        return bool(self.fields[name] - {here})

    def asks(self, b):
        """A function of the crates that returns an optional value which is there or not depending on the text that is read."""
        if not own(b) or not b.blocks or not re.match(r"(core::option::)?Option<", b.ty(0)["s"].replace("std::", "core::")) or b.path.endswith("::current"):
            return False
        for x in [b] + closures_of(self.F, b):
            for path, sp, called, fn in self.cg.ext.get(x.id, ()):
                if path and re.search(r"Chars(<.*>)?( as .*>)?::(next|peek|last)$|Peekable(<.*>)?::(peek|next_if)$|(^|::)str::(parse|strip_prefix|strip_suffix|find|rfind|split_once|rsplit_once)$|Iterator>?::next$", path):
                    return True
        return False

    def established(self, a, n, x):
        def ok(f):
            return f[0] == "variant" and peel(f[1]) == x and (f[2] in ("Some", "Ok", "Continue")) == f[3]
        fs = a.facts_at(n)
        if any(ok(f) for f in fs):
            return True
        return a.every_path_has(n, ok)

    def denied(self, a, n, x):
        """Whether a branch on which the operation has failed leads to the construct."""
        def says(good):
            return lambda f: f[0] == "variant" and peel(f[1]) == x and f[2] in ("Some", "Ok", "Continue", "None", "Err", "Break") and ((f[2] in ("Some", "Ok", "Continue")) == f[3]) == good
        no, yes = says(False), says(True)
        starts = []
        for m in a.g.nodes:
            for k, lab in m.succ:
                if lab and any(no(f) for f in a.atoms(m, k, lab)):
                    starts.append(k)
        return bool(starts) and n.id in a.reach(starts, None, lambda m, k, lab: bool(lab) and any(yes(f) for f in a.atoms(m, k, lab)))

    def guarded(self, a, n, R, K, acc, depth=0, R0=None):
        weakroot = R[0] == "param"

        def ok(f):
            ts = [y for y in f[1:3] if isinstance(y, tuple)]
            if not any(contains(y, R) for y in ts):
                return False
            if f[0] == "variant" and peel(f[1]) in (R, peel(R)) and f[2] in ("Some", "None", "Ok", "Err", "Continue", "Break"):
                return False                              # that it is there says nothing about what it is
            if f[0] == "variant" and f[1] == R and acc in KINDS:
                return (f[2] in KINDS[acc]) == f[3]
            if f[0] == "variant" and f[2] in ("Ok", "Err", "Continue", "Break") and f[1][0] == "call" and last(peel(f[1])[1] if peel(f[1])[0] == "call" else "") not in (acc, "parse", "from_utf8", "to_str"):
                return False                              # that something else could be done with it
            if f[0] == "is" and f[1][0] == "call" and WEAK.search(f[1][1]) and acc in KINDS:
                return False
            if acc in TEXTUAL or acc in ("extension", "file_stem", "from_utf8"):
                if not any(chained(y, R) for y in ts):
                    return False
                if all(z[0] != "call" or last(z[1]) in OTHERS - {acc} or not contains(z, R) for y in ts for z in walk(y)) and R not in ts and not any(peel(y) == R for y in ts):
                    return False
            if K is not None and K[0] != "const" and stable(K) and acc in ("get", "get_mut", "get_variable", "get_at_path", "remove"):
                return any(contains(y, K) for y in ts)
            if weakroot and acc in ("get_variable", "get_at_path"):
                return any(y[0] == "call" and (last(y[1]) == acc or K is not None and contains(y, K)) for z in ts for y in walk(z))
            return True
        if a.every_path_has(n, ok):
            return True
        root = term_root(R)
        while root[0] in ("cast",):
            root = term_root(root[2])
        if root[0] == "phi" and acc in TEXTUAL and depth == 0 and all(y[0] not in ("upd", "unknown", "rec") for y in walk(R)) and any(y[0] == "call" and re.search(r"::(lines|trim\w*|chars|read_to_string|split\w*)$", y[1]) or y[0] == "field" for y in walk(R)):
            return False
        if root[0] in ("phi", "upd", "unknown", "agg"):
            return True                                   # not traced: undecided
        if root[0] == "param":
            nm = root[2] if len(root) > 2 else None
            b = a.body
            given = any(y[0] == "call" and y[2] and re.search(r"^stuart(_core)?::", y[1]) and not re.search(r"::(current|next|peek)$", y[1]) for y in walk(R))
            if nm == "self" and given and K is None and acc in KINDS:
                return False
            parts = any(y[0] == "call" and re.search(r"::(split\w*|rsplit\w*|lines|chars|next)$", y[1]) for y in walk(R))
            if nm == "self" and acc in TEXTUAL and parts and any(y[0] == "call" and SPLITS.search(y[1]) for y in walk(R)):
                return False
            if nm == "self" and R is not root and depth == 0 and re.search(r"functions::Function>::execute|Node::", b.path):
                return True                               # an invariant of the object; undecided
            if b.kind == "closure":
                return not (root[1] != 1 and (acc in KINDS or acc in TEXTUAL))
            cs = self.callers.get(b.id, set()) if not b.path.endswith("::execute") else set()
            if cs and depth < 2 and not re.search(r" as ", b.path):
                return all(self.guarded_at(c, b, R, K, acc, depth) for c in cs)
            if not cs and not re.search(r" as .*>::", b.path):
                return True                               # never called from the build; undecided
        return False

    def guarded_at(self, cid, b, R, K, acc, depth):
        c = self.F.bodies.get(cid)
        a = self.an(c) if c is not None else None
        if a is None:
            return True
        ns = [n for n in a.g.nodes if n.kind == "b" and n.term["k"] == "call" and n.call and n.call[2] is b]
        if not ns:
            return True
        for n in ns:
            args = a.args(n)
            def sub(t):
                if t is None or not isinstance(t, tuple):
                    return t
                if t[0] == "param" and isinstance(t[1], int) and 1 <= t[1] <= len(args):
                    return args[t[1] - 1]
                return tuple(sub(y) if isinstance(y, tuple) else y for y in t)
            if not self.guarded(a, n, sub(R), sub(K), acc, depth + 1):
                return False
        return True

    # ------------------------------------------------------------------ indices
    def least(self, a, n, V):
        """The least length of V that the facts on every path allow, and whether V is constrained at all."""
        lo, hit, odd = 0, False, False
        fs = a.facts_at(n)
        again = True
        while again:
            again = False
            for f in fs:
                ts = [y for y in f[1:3] if isinstance(y, tuple)]
                if not any(contains(y, V) for y in ts):
                    continue
                hit = True
                m = self.implied(f, V, lo)
                if m is None:
                    odd = True
                elif m > lo:
                    lo, again = m, True
        return lo, hit, odd

    def implied(self, f, V, lo):
        op, x, y, truth = f
        def ln(t):
            return is_len_of(t, V) or t[0] == "call" and t[1].endswith("::len") and t[2] and t[2][0] == V
        if op == "Eq" and ln(x) and y[0] == "const" and isinstance(y[1], int):
            return y[1] if truth else lo + 1 if y[1] == lo else lo
        if op == "Lt" and isinstance(y, tuple) and ln(y) and x[0] == "const" and isinstance(x[1], int):
            return x[1] + 1 if truth else lo
        if op == "Lt" and ln(x) and isinstance(y, tuple) and y[0] == "const" and isinstance(y[1], int):
            return lo if truth else y[1]
        if op == "is" and x[0] == "call" and x[1].endswith("is_empty") and x[2] and x[2][0] == V:
            return lo if truth else max(lo, 1)
        if op == "variant" and x[0] == "call" and re.search(r"::(first|last)$", x[1]) and x[2][0] == V:
            return max(lo, 1) if (f[2] == "Some") == truth else lo
        if op == "variant" and x[0] == "call" and re.search(r"::(position|rposition|find|find_map|get|last|first|next|min|max)$", x[1]):
            return max(lo, 1) if (f[2] == "Some") == truth else lo
        if op == "is" and x[0] == "call" and re.search(r"::(any|all|contains)$", x[1]):
            return max(lo, 1) if x[1].endswith("any") and truth else lo
        if op == "variant" and x[0] == "index":
            return lo
        if not any(ln(z) for t in (x, y) if isinstance(t, tuple) for z in walk(t)):
            # a fact about an element
            if any(z[0] == "index" and z[1] == V or z[0] == "call" and INDEX.search(z[1]) and z[2][0] == V for t in (x, y) if isinstance(t, tuple) for z in walk(t)):
                return lo
        return None

    def enough(self, a, n, V, k):
        lo, hit, odd = self.least(a, n, V)
        if lo > k:
            return True
        if a.every_path_has(n, lambda f: any(contains(y, V) for y in f[1:3] if isinstance(y, tuple)) and (self.implied(f, V, 0) or 0) > k):
            return True
        return None if odd else False

    def index(self, a, n):
        V, K = a.arg(n, 0), a.arg(n, 1)
        ty = tyof(n, 0)
        if re.search(r"humphrey_json|serde_json|toml::", n.call[0]) or not re.search(r"Vec|\[|str|String|Map|Slice", n.call[0]) and re.search(r"humphrey_json|serde_json|toml::", ty):
            return (True, "index", "the index of a JSON value; not decided")
        if re.search(r"HashMap|BTreeMap", ty):
            if n.frame.body.kind == "closure" or a.body.kind == "closure" or made(V) or any(x[0] == "call" and not x[1].endswith(("::as_str", "::deref", "::as_ref", "::borrow", "::to_string", "::clone")) for x in walk(K)):
                return (True, "index", "a key of unknown origin; not decided")
            ok = a.every_path_has(n, lambda f: any(contains(y, V) for y in f[1:3] if isinstance(y, tuple)) and any(contains(y, K) for y in f[1:3] if isinstance(y, tuple)))
            return (True, "index", "the key is tested") if ok or not self.mine(V) or not stable(V) else (False, "index", "a map is indexed with a key that is not tested to exist")
        if K[0] == "const" and isinstance(K[1], int):
            return self.element(a, n, V, K[1])
        if K[0] != "agg" and not re.search(r"HashMap|BTreeMap|::Map", n.call[0]) and self.unbounded(a, n, K):
            return (False, "index", "an element is taken at a place that is given by the template and not compared with the length")
        return self.sliced(a, n, V, K, ty)

    def element(self, a, n, V, k):
        if V[0] == "agg":
            return (True, "index", "an element of an array of known length")
        if not stable(V) or not self.mine(V):
            return (True, "index", "the element of something that changes; not decided")
        if V[0] == "call" and re.search(r"::(captures|as_bytes)$", V[1]):
            return (True, "index", "not decided")
        if k < at_least(V):
            return (True, "index", "a text split at a pattern has at least one part")
        if made(V):
            return (True, "index", "an element of something a function returned; not decided")
        e = self.enough(a, n, V, k)
        if e is None:
            return (True, "index", "the length is constrained in a way that was not recognised; not decided")
        if e:
            return (True, "index", "the length is known to be at least %d on every path" % (k + 1))
        if term_root(V)[0] == "param" and term_root(V)[2:] == ("self",) and V[0] == "field":
            return (True, "index", "an element of a field of the object; not decided")
        cs = self.callers.get(a.body.id, set())
        if V[0] == "param" and cs:
            return (True, "index", "an element of a parameter; not decided")
        return (False, "index", "element %d is taken although fewer elements are possible" % k)

    def bounds(self, K):
        if K[0] == "agg" and "Range" in K[1]:
            return [v for _, v in K[2]]
        return [K]

    def sliced(self, a, n, V, K, ty):
        bs = self.bounds(K)
        if K[0] != "agg":
            return (True, "slice", "an index that is computed; not decided")
        text = ty == "str" or bool(re.match(r"<(str|alloc::string::String|std::string::String) as", n.call[0] or ""))
        if not self.mine(V) or any(x[0] == "upd" for x in walk(V)) and not text:
            return (True, "slice", "not decided")
        if text:
            return self.text(a, n, V, K, bs)
        for k in bs:
            if k[0] == "const" and k[1] == 0:
                continue
            if k[0] == "const":
                if not isinstance(k[1], int) or k[1] <= at_least(V) or made(V):
                    continue
                if not stable(V) or a.every_path_has(n, lambda f: any(contains(y, V) for y in f[1:3] if isinstance(y, tuple)) and not (f[0] == "is" and f[1][0] == "call" and f[1][1].endswith("is_empty") and f[3])):
                    continue
                return (False, "slice", "a part of constant bounds is taken from what may be shorter")
            if any(x[0] == "call" and FINDERS.search(x[1]) for x in walk(k)) and not any(x[0] == "call" and x[1].endswith("::count") for x in walk(k)):
                continue
            if not stable(k) or a.every_path_has(n, lambda f: any(contains(y, V) for y in f[1:3] if isinstance(y, tuple))):
                continue
            return (False, "slice", "a part is taken whose bound was not found in it")
        return (True, "slice", "the bounds were found in what is sliced, or are tested")

    def text(self, a, n, V, K, bs):
        """A part of a text: the bounds must be within it, in order, and between characters."""
        if all(k[0] == "const" and k[1] == 0 for k in bs) or V[0] == "const":
            return (True, "slice", "the whole text")
        if not stable(V):
            return (True, "slice", "a text that changes; not decided")

        def touches(f):
            return any(contains(y, V) for y in f[1:3] if isinstance(y, tuple))

        def decisive(f):
            """A test of the text that says more than which characters it has, or whether it is empty."""
            if not touches(f):
                return False
            for y in f[1:3]:
                for z in walk(y) if isinstance(y, tuple) else ():
                    if z[0] == "call" and z[2] and contains(z[2][0], V) and re.search(r"::(starts_with|ends_with|is_char_boundary|is_ascii\w*|strip_\w+|get|find|rfind|position|split\w*|char_indices|match_indices|next|next_back|nth|last|peek|first|as_bytes|bytes|eq|ne|cmp|parse)$", z[1]):
                        return True
            return f[0] == "Eq" and (f[1] == V or f[2] == V)

        def both(f):
            return touches(f) and not only_emptiness(f)

        def only_emptiness(f):
            ts = [z for y in f[1:3] if isinstance(y, tuple) for z in walk(y) if z[0] == "call" and z[2] and contains(z[2][0], V)]
            return bool(ts) and all(re.search(r"::(is_empty|contains|all|any|chars|trim\w*|lines|bytes|is_alphanumeric|is_alphabetic)$", z[1]) for z in ts)
        tested = a.every_path_has(n, decisive)
        consts, sizes = 0, False
        for k in bs:
            lv = leaves(k)
            for x in lv:
                if x[0] == "const" and isinstance(x[1], int):
                    consts += x[1]
                elif is_len_of(x, V) or x[0] == "call" and x[1].endswith("len") and x[2] == (V,):
                    sizes = True
                elif x[0] == "call" and FINDERS.search(x[1]) and not x[1].endswith("::count"):
                    consts = None
                elif not stable(x) or tested:
                    consts = None
                elif x[0] == "field" and term_root(x)[0] == "param" and term_root(x)[2:] == ("self",) or x[0] == "call" and x[1].endswith("::count") or x[0] == "call" and own_number(x):
                    return (False, "slice", "a part is taken whose bound was not found in that text (it may be past the end, or inside a character)")
                else:
                    consts = None
                if consts is None:
                    break
            if consts is None:
                break
        if consts is None or consts == 0:
            return (True, "slice", "the bounds were found in what is sliced, or are tested")
        if not tested and not any(size_fact(f, V) for f in a.facts_at(n)):
            if not a.every_path_has(n, lambda f: any(size_fact(f, V) for _ in (0,))):
                return (False, "slice", "a part of constant bounds is taken from a text that may be shorter, or at a place inside a character")
        if sizes and len(bs) == 2:
            fs = [f for f in a.facts_at(n) if touches(f)]
            ends = [f for f in fs if f[0] == "is" and f[3] and f[1][0] == "call" and re.search(r"::(starts|ends)_with$", f[1][1]) and f[1][2][0] == V and f[1][2][1][0] == "const"]
            if ends and len(ends) == len(fs) and not a.every_path_has(n, lambda f: size_fact(f, V)):
                most = max(width(f[1][2][1][1]) for f in ends)
                if consts > most:
                    return (False, "slice", "what is cut off both ends may be the same character: the text may be shorter than the two together")
        return (True, "slice", "the text is tested")

    def unbounded(self, a, n, k):
        """A number that a template gives, on a path on which nothing limits it."""
        lv = leaves(k)
        if not stable(k) or any(peel(strip_some(x))[0] == "call" and FINDERS.search(peel(strip_some(x))[1]) for x in lv):
            return False
        given = [x for x in lv if x[0] == "call" and own_number(peel(x)) or x[0] == "field" and peel(strip_some(x))[0] == "call" and own_number(peel(strip_some(x))) or self.numeric(a, x)]
        if not given:
            return False
        return not a.every_path_has(n, lambda f: f[0] in ("Lt", "Eq") and any(isinstance(y, tuple) and any(contains(y, x) or contains(y, strip_some(x)) and y[0] != "call" for x in given) for y in f[1:3]))

    def numeric(self, a, x):
        """A field of the function object that its parser takes from an argument."""
        y = strip_some(x)
        return y[0] == "field" and y[1][0] == "param" and y[1][2:] == ("self",) and a.body.path.endswith("functions::Function>::execute")

    def cut(self, a, n, p):
        m = last(p)
        args = a.args(n)
        if len(args) < 2:
            return None
        V, K = args[0], args[1]
        ty = tyof(n, 0)
        text = bool(re.search(r"String|\bstr\b", p + ty)) and "Vec" not in p
        if "Vec" in p and m in ("remove", "swap_remove"):
            if K[0] == "const" and isinstance(K[1], int):
                if any(x[0] == "upd" for x in walk(V)):
                    return (True, "cut", "not decided")
                return self.element(a, n, V, K[1])
            return (True, "cut", "not decided")
        if "Vec" in p and m in ("drain", "split_off", "insert"):
            for k in self.bounds(K):
                if self.unbounded(a, n, k):
                    return (False, "cut", "a collection is cut at a place that is given by the template and not compared with its length")
            return (True, "cut", "not decided")
        if not text:
            return (True, "cut", "not decided")
        return self.sliced(a, n, V, K if K[0] == "agg" else ("agg", "Range", (("end", K),)), "str")

    # ------------------------------------------------------------------ arithmetic
    def arith(self, a, n, t):
        ops = [a.T.operand(n, None, o) for o in t["ops"]]
        k = t["msg"]
        if k in ("div-zero", "rem-zero"):
            x = ops[0] if ops else ("unknown",)
            # the operand of the message is the dividend; the divisor is that of the operation that follows
            d = divisor(a, n, t)
            if d is None or d[0] == "const" or not stable(d):
                return (True, "divide", "by a constant, or not traced")
            if any(y[0] == "call" and re.search(r"::(count|len)$|^len$", y[1]) for y in walk(d)) and not any(y[0] == "call" and y[1].endswith("::max") for y in walk(d)):
                if a.every_path_has(n, lambda f: any(contains(y, d) for y in f[1:3] if isinstance(y, tuple)) or any(contains(y, z) for y in f[1:3] if isinstance(y, tuple) for z in walk(d) if z[0] == "call" for z in z[2][:1] if z[0] != "param")):
                    return (True, "divide", "the divisor is tested")
                return (False, "divide", "a division by a number of things that may be zero")
            return (True, "divide", "not decided")
        if k == "bounds":
            ln, ix = (ops + [None, None])[:2]
            if ix is not None and ix[0] == "const" and isinstance(ix[1], int) and ln is not None and ln[0] == "call" and ln[1] == "len":
                return self.element(a, n, ln[2][0], ix[1])
            return (True, "index", "an index that is computed; not decided")
        if k == "overflow-sub" and len(ops) == 2:
            x, y = ops
            if x[0] == "const" or not stable(x) or not re.match(r"u|usize", tyname(n, t)):
                return (True, "subtract", "not decided")
            core = x[2] if x[0] == "cast" else x
            size = core[0] == "call" and re.search(r"::(len|count)$|^len$", core[1])
            line = core[0] == "field" and core[2] in ("line", "column")
            if not size and not line:
                return (True, "subtract", "not decided")
            if y[0] != "const":
                return (True, "subtract", "not decided")
            whole = core[2][0] if size and core[2] else core

            def ok(f):
                ts = [z for z in f[1:3] if isinstance(z, tuple)]
                return any(contains(z, core) or size and contains(z, whole) for z in ts)
            if a.every_path_has(n, ok):
                return (True, "subtract", "the number is tested on every path")
            if size and not self.mine(core) or size and whole[0] in ("agg",):
                return (True, "subtract", "not decided")
            return (False, "subtract", "%s is subtracted from %s, which may be less" % (y[1], "a size" if size else "the %s of an error, which is 0 when it is not known" % core[2]))
        return (True, "arithmetic", "not decided")

    # ------------------------------------------------------------------ explicit panics
    def explicit(self, a, n):
        fs = a.facts_at(n)
        if not fs and n.frame.body is a.body and not any(l and l[0] not in ("call", "opaque", "ret", "hof") for m in a.g.nodes for _, l in m.succ if l):
            return (False, "panic", "the function panics whenever it is called")
        for f in fs:
            if f[0] == "variant" and isinstance(f[1], tuple):
                x = peel(f[1])
                bad = f[2] in ("None", "Err") and f[3] or f[2] in ("Some", "Ok") and not f[3]
                if bad and x[0] == "call" and not self.established(a, n, x):
                    x = source(x)
                    l = lookup(x)
                    b = None if l else self.target(a, x)
                    if l is not None and self.mine(x) and l[0] is not None and not self.guarded_before(a, n, l, f) or b is not None and self.fails(b):
                        return (False, "panic", "the failure of %s is turned into a panic" % last(x[1]))
        c = self.unexpected(a, n, fs)
        if c is not None:
            return (False, "panic", "a text is read up to the character %r, which what follows does not expect" % c)
        seen = set()
        for m in a.g.nodes:
            for k, lab in m.succ:
                for f in a.atoms(m, k, lab) if lab else ():
                    if f[0] == "variant" and isinstance(f[1], tuple) and (f[2] in ("None", "Err") and f[3] or f[2] in ("Some", "Ok") and not f[3]):
                        x = peel(f[1])
                        l = lookup(x)
                        if l is None or l[0] is None or x in seen or not stable(x) or not self.mine(x):
                            continue
                        seen.add(x)
                        if not self.established(a, n, x) and self.denied(a, n, x) and self.only_failed(a, n, x) and not self.guarded_before(a, n, l, f):
                            return (False, "panic", "the failure of %s is turned into a panic" % last(x[1]))
        return (True, "panic", "guarded by a condition; not decided")

    def unexpected(self, a, n, fs):
        """A character that ends what a reader extracts, but is none of those that the branch to a panic excludes for the next one."""
        F = self.F
        xs = {f[1] for f in fs if f[0] == "Eq" and not f[3] and f[2][0] == "const" and isinstance(f[2][1], int) and f[1][0] == "field" and f[1][1][0] == "call" and re.search(r"Parser(<.*>)?::next$|Chars.*::next$", f[1][1][1])}
        for x in xs:
            excluded = {f[2][1] for f in fs if f[0] == "Eq" and f[1] == x and not f[3] and f[2][0] == "const"}
            nx = [m for m in a.g.nodes if m.kind == "b" and m.call and m.call[0] == x[1][1] and m.term["k"] == "call"]
            nx = [m for m in nx if n.id in a.reach([m])]
            for m in nx:
                # the last reader before it
                work, seen, readers = [m], {m.id}, set()
                while work:
                    y = work.pop()
                    for z, lab in y.pred:
                        if z.id in seen:
                            continue
                        seen.add(z.id)
                        if z.kind == "b" and z.call and z.term["k"] == "call" and re.search(r"Parser(<.*>)?::\w+$", z.call[0] or "") and not re.search(r"::(traceback|location|path|peek|new|line|column)$", z.call[0]):
                            readers.add(z)
                        else:
                            work.append(z)
                if len({(r.body.id, r.bb) for r in readers}) != 1:
                    continue
                r = readers.pop()
                g = r.call[2]
                cs = [t for t in walk(a.arg(r, 1)) if t[0] == "agg" and t[1].startswith("closure:")]
                if not r.call[0].endswith("::extract_while") or len(cs) != 1:
                    continue
                body = F.bodies.get(cs[0][1][len("closure:"):])
                st = stops(F, body) if body is not None else None
                for c in sorted(st or ()):
                    if ord(c) not in excluded:
                        return c
        return None

    def only_failed(self, a, n, x):
        """Every path to the construct passes the failure of the operation, or a test of what it found."""
        def ok(f):
            if f[0] == "variant" and peel(f[1]) == x:
                return f[2] in ("None", "Err") and f[3] or f[2] in ("Some", "Ok") and not f[3]
            return any(any(y[0] == "field" and peel(y[1]) == x for y in walk(z)) for z in f[1:3] if isinstance(z, tuple))
        return a.every_path_has(n, ok)

    def guarded_before(self, a, n, l, f0):
        R, K, acc, what = l
        if term_root(R)[0] in ("phi", "upd", "unknown", "agg") or term_root(R)[2:] == ("self",):
            return True
        return any(any(contains(y, R) for y in f[1:3] if isinstance(y, tuple)) for f in a.facts_at(n) if f != f0 and not (f[0] == "variant" and peel(f[1]) == peel(f0[1])))


SPLITS = re.compile(r"::(split|splitn|rsplit|rsplitn|split_inclusive|ancestors)$")
ADAPTERS = re.compile(r"::(collect|map|split|splitn|rsplit|rsplitn|split_inclusive|split_whitespace|lines|chars|bytes|char_indices|filter|filter_map|skip|take|skip_while|take_while|rev|enumerate|trim\w*|to_vec|iter|into_iter|cloned|copied|as_str|as_slice|deref|as_ref|split_ascii_whitespace|as_array|as_object|children|next|get_variable|to_string|ok_or\w*)$")


def at_least(V):
    """The least number of elements a collection has by its construction."""
    while V[0] == "call" and V[2] and re.search(r"::(collect|to_vec|iter|into_iter|rev|map|enumerate|cloned|copied|deref|as_slice)$", V[1]):
        V = V[2][0]
    return 1 if V[0] == "call" and SPLITS.search(V[1]) else 0


def made(V):
    """Whether a collection comes from something whose result is not known."""
    while V[0] in ("field", "index", "cast") or V[0] == "call" and V[2]:
        if V[0] == "call" and not ADAPTERS.search(V[1]):
            return True
        V = V[2] if V[0] == "cast" else V[1] if V[0] != "call" else V[2][0]
    return V[0] != "param"


def leaves(t):
    if t[0] == "bin":
        return leaves(t[2]) + leaves(t[3])
    if t[0] == "cast":
        return leaves(t[2])
    if t[0] == "field" and t[2] == "0" and t[1][0] == "bin":
        return leaves(t[1])
    if t[0] == "call" and re.search(r"::(min|max|saturating_sub|saturating_add|wrapping_\w+)$", t[1]) and len(t[2]) == 2:
        return leaves(t[2][0]) + leaves(t[2][1])
    return [t]


def own_number(t):
    return bool(re.search(r"::(as_integer|as_number|as_f64|as_i64|parse)$", t[1]))


def size_fact(f, V):
    """A test of the length of a text (other than whether it is empty)."""
    for y in f[1:3]:
        if isinstance(y, tuple) and (is_len_of(y, V) or y[0] == "call" and y[1].endswith("len") and y[2] == (V,)):
            o = f[2] if y is f[1] else f[1]
            return not (isinstance(o, tuple) and o[0] == "const" and o[1] == 0)
    return False


def width(c):
    return len(c.encode()) if isinstance(c, str) else len(chr(c).encode()) if isinstance(c, int) and 0 <= c < 0x110000 else 1


def chained(t, R):
    """Whether a term is R, or a part or view of it."""
    while True:
        if t == R:
            return True
        if t[0] in ("field", "index"):
            t = t[1]
        elif t[0] == "cast":
            t = t[2]
        elif t[0] == "call" and t[2]:
            t = t[2][0]
        else:
            return False


def strip_some(t):
    while t[0] == "field" and t[2] in ("Some.0", "Ok.0") or t[0] == "cast":
        t = t[1] if t[0] == "field" else t[2]
    return t


def bare(t):
    while t[0] in ("field", "index", "cast"):
        t = t[2] if t[0] == "cast" else t[1]
    return t


def same_root(x, y):
    def rs(t):
        if t[0] == "phi":
            return set().union(*[rs(z) for z in t[1] if isinstance(z, tuple)]) if t[1] else set()
        if t[0] == "upd":
            return set()
        r = term_root(t)
        return {r} if r[0] != "phi" else rs(r)
    return bool(rs(x) & rs(y))


def roots(t, R):
    """Whether a term asks something of R, or of a part of it."""
    return any(x[0] == "call" and x[2] and contains(x[2][0], R) for x in walk(t))


def closures_of(F, b):
    return [x for x in F.local if x.kind == "closure" and root_fn(F, x) is b]


def optional_fields(F, p):
    a = F.adts.get(p)
    if not a or a["kind"] != "struct":
        return ()
    return [f["name"] for f in a["variants"][0]["fields"] if re.search(r"option::Option", f.get("tys") or "")]


def accessor(n):
    """The JSON accessor whose result is unwrapped directly, when it is one that terms look through."""
    b = n.frame.body
    p = op_place(n.term["args"][0]) if n.term["args"] else None
    if p is None or p[1]:
        return None
    ds = [bl["t"] for bl in b.blocks if bl["t"]["k"] == "call" and bl["t"].get("dest") and bl["t"]["dest"][0] == p[0] and not bl["t"]["dest"][1]]
    ds += [None for bl in b.blocks for s in bl["st"] if s["k"] == "assign" and s["p"][0] == p[0]]
    if len(ds) != 1 or ds[0] is None or ds[0]["f"]["k"] != "const":
        return None
    q = (ds[0]["f"].get("fn") or {}).get("path", "")
    return q if re.search(r"humphrey_json::.*::as_(str|string)$", q) else None


class Predicate(Chars):
    """The world of a predicate on characters, given one character; what it captures is unknown."""

    def __init__(self, F, char):
        super().__init__(F, {})
        self.given = ord(char)

    def start(self, G, env):
        env[((0, 2), ())] = ("c", self.given)

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        return None


def stops(F, closure):
    """The characters at which a predicate may be false, or None when that is not known."""
    out = set()
    for c in [chr(i) for i in range(32, 127)] + ["\n", "\t", "\u00e9"]:
        w = Predicate(F, c)
        try:
            Graph(F, closure, world=w, max_nodes=4000)
        except TooBig:
            return None
        rs = [r.get(()) for r, s in w.out]
        if not rs or any(r is None or r[0] != "c" for r in rs):
            return None
        if any(not r[1] for r in rs):
            out.add(c)
    return out


def tyof(n, i):
    b = n.frame.body
    args = n.term["args"]
    p = op_place(args[i]) if i < len(args) else None
    if p is None or p[1]:
        return ""
    return b.types[b.locals[p[0]]["ty"]]["s"]


def tyname(n, t):
    try:
        return n.frame.body.types[t["oty"]]["s"]
    except Exception:
        return ""


def divisor(a, n, t):
    """The divisor checked by a division assertion: the other operand of the comparison with zero before it."""
    c = a.T.operand(n, None, t["c"])
    if c[0] == "un":
        c = c[2]
    if c[0] == "bin" and c[1] in ("Eq", "Ne"):
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if y[0] == "const" and y[1] == 0:
                return x
    return None
