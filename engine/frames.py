"""A world with a concrete scope: a stack of frames with known variables, known sections, a small content tree.

A function of the template language (or one of the lookups it uses) is interpreted on it: everything that is found,
inserted, bound or refused is then determined, whatever shape the code has.  What the interpretation does not
determine marks the path as lost, and a lost path decides nothing.
"""
import re
from graph import under
from facts import op_place
from world import Lists, LEN, SELF, TOK, UNK_CH, g, gs, resolve, text

STACK, SECTIONS, TREE, STUART = ("K",), ("SEC",), ("TREE",), ("ST",)


def S(x):
    return {(): ("c", "s:" + x)}


def json(x):
    """The abstract value of a piece of JSON given as Python data."""
    if x is None:
        return {(): ("v", "Null")}
    if isinstance(x, bool):
        return {(): ("v", "Bool"), ("Bool.0",): ("c", x)}
    if isinstance(x, (int, float)):
        return {(): ("v", "Number")}
    if isinstance(x, str):
        return {(): ("v", "String"), ("String.0",): ("c", "s:" + x)}
    if isinstance(x, list):
        return {(): ("v", "Array"), **{("Array.0",) + k: v for k, v in Lists.made([json(y) for y in x]).items()}}
    items = [{("0",): ("c", "s:" + k), **{("1",) + kk: w for kk, w in json(y).items()}} for k, y in x.items()]
    return {(): ("v", "Object"), **{("Object.0",) + k: v for k, v in Lists.made(items).items()}}


class Unknown(Exception):
    pass


def python(env, pl):
    """The JSON at a place as Python data; raises Unknown."""
    v, pl = resolve(env, ("&", pl, False))
    if v is None or v[0] != "v":
        raise Unknown()
    k = v[1]

    def at(*s):
        return (pl[0], pl[1] + s)
    if k == "Null":
        return None
    if k == "Bool":
        w = env.get(at("Bool.0"))
        if not w:
            raise Unknown()
        return bool(w[1])
    if k == "Number":
        return 0
    if k == "String":
        s = text(env, ("&", at("String.0"), False))
        if s is None or UNK_CH in s:
            raise Unknown()
        return s
    n = env.get(at(k + ".0", "#"))
    if n is None or k not in ("Array", "Object"):
        raise Unknown()
    if k == "Array":
        return [python(env, at("Array.0", "[%d]" % i)) for i in range(n[1])]
    out = {}
    for i in range(n[1]):
        s = text(env, ("&", at("Object.0", "[%d]" % i, "0"), False))
        if s is None:
            raise Unknown()
        out.setdefault(s, python(env, at("Object.0", "[%d]" % i, "1")))
    return out


def frame(name, variables, output=""):
    sub = {("name",): ("c", "s:" + name), ("output",): ("c", "s:" + output)}
    vs = [{("0",): ("c", "s:" + k), **{("1",) + kk: w for kk, w in json(x).items()}} for k, x in variables]
    sub.update({("variables",) + k: v for k, v in Lists.made(vs).items()})
    return sub


def node(name, kind, content=None):
    """A node of the content tree; kind: dir, Html, Markdown, Json, Custom, None, Ignored."""
    if kind == "dir":
        sub = {(): ("v", "Directory"), ("Directory.name",): ("c", "s:" + name)}
        sub.update({("Directory.children",) + k: v for k, v in Lists.made(content).items()})
        return sub
    sub = {(): ("v", "File"), ("File.name",): ("c", "s:" + name), ("File.parsed_contents",): ("v", kind), ("File.metadata",): ("v", "None")}
    if kind not in ("Json", "Ignored"):
        sub.update({("File.contents",): ("c", "s:decoy")})
    if kind == "Markdown":
        meta = [{("0",): ("c", "s:title"), ("1",): ("c", "s:decoy")}]
        sub.update({("File.parsed_contents", "Markdown.0", "frontmatter") + k: v for k, v in Lists.made(meta).items()})
        sub[("File.parsed_contents", "Markdown.0", "markdown_string")] = ("c", "s:decoy")
        sub[("File.parsed_contents", "Markdown.0", "html")] = ("v", "None")
    if kind == "Json":
        sub.update({("File.parsed_contents", "Json.0") + k: v for k, v in json(content).items()})
    return sub


FORGIVEN = re.compile(r"^(core::(mem|ptr|fmt)|alloc::(boxed|fmt)|core::ops::drop|core::hint)|drop_in_place|::traceback$|TokenIter::")


class Scoped(Lists):
    """The world of one operation on a concrete scope."""

    def __init__(self, F, stack, fields=None, sections=(), tree=None, vocabulary=()):
        super().__init__(F)
        self.frames, self.fields, self.secs, self.tree = stack, fields or {}, sections, tree
        self.ends = []          # (outcome, environment, lost)
        self.went = []          # the same where a function goes on to the tokens of its block
        self.used = []          # values looked into: (json, lost, node)

    # ---------------------------------------------------------------- the scope
    def start(self, G, env):
        env[(SELF, ("inner",))] = ("v", "Function")
        env.update(gs(pos=0))
        env.update({(STACK, k): v for k, v in self.made([frame(*f) for f in self.frames]).items()})
        env.update({(SECTIONS, k): v for k, v in self.made([{("0",): ("c", "s:" + a), ("1",): ("c", "s:" + b)} for a, b in self.secs]).items()})
        env[(STUART, ("input",))] = ("v", "Some")
        if self.tree is not None:
            env.update({(STUART, ("input", "Some.0") + k): v for k, v in self.tree.items()})
        b = G.root_body
        for i in range(1, b.argc + 1):
            ty = b.types[b.locals[i]["ty"]]["s"]
            if re.search(r"process::Scope\b", ty):
                r = ("P", i)
                env[(r, ("stack",))] = ("&", (STACK, ()), True)
                env[(r, ("sections",))] = ("&", (SECTIONS, ()), True)
                env[(r, ("processor",))] = ("&", (STUART, ()), False)
        for k, v in self.fields.items():
            env[(("P", 1), k)] = v

    def stack_of(self, env):
        """[(name, {variable: [values]}, output)] of the frames, or None."""
        n = env.get((STACK, LEN))
        if n is None:
            return None
        out = []
        for i in range(n[1]):
            def at(*s):
                return (STACK, ("[%d]" % i,) + s)
            k = env.get(at("variables", "#"))
            if k is None:
                return None
            vs = []
            for j in range(k[1]):
                nm = text(env, ("&", at("variables", "[%d]" % j, "0"), False))
                try:
                    vs.append((nm, python(env, at("variables", "[%d]" % j, "1"))))
                except Unknown:
                    vs.append((nm, Unknown))
            out.append((text(env, ("&", at("name"), False)), vs, text(env, ("&", at("output"), False))))
        return out

    def sections_of(self, env):
        n = env.get((SECTIONS, LEN))
        if n is None:
            return None
        return [tuple(text(env, ("&", (SECTIONS, ("[%d]" % i, k)), False)) for k in "01") for i in range(n[1])]

    # ---------------------------------------------------------------- what is not determined
    def known(self, env, sub):
        v = sub.get(())
        if text(env, v) is not None or LEN in sub or ("at",) in sub:
            return True
        w, pl = resolve(env, v)
        if w and w[0] == "v" and w[1] in ("Null", "Bool", "Number", "String", "Array", "Object"):
            return True
        return pl is not None and any((pl[0], pl[1] + s) in env for s in (LEN, ("at",))) or pl is not None and pl[0] in (STACK, SECTIONS, STUART)

    def undetermined(self, env):
        self.lost(env)

    def opaque(self, G, n, fn, frame, t, env):
        p = (fn or {}).get("path", "")
        if not FORGIVEN.search(p):
            for a in t["args"]:
                if self.known(env, G.read_op(frame, a, env)):
                    self.lost(env)
                    self.events.setdefault(("lost", p), n)
        return True

    # ---------------------------------------------------------------- operations
    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        if m == "next" and "TokenIter" in targs + path:
            self.went.append((env, bool(g(env, "lost")), n))
            return []
        if m == "index_mut" and "humphrey_json" in path and len(v) == 2 and text(env, v[1]) is not None:
            w, pl = resolve(env, v[0])
            if w and w == ("v", "Object") and pl is not None:
                k = env.get((pl[0], pl[1] + ("Object.0", "#")))
                if k is not None:
                    for j in range(k[1]):
                        if text(env, ("&", (pl[0], pl[1] + ("Object.0", "[%d]" % j, "0")), False)) == text(env, v[1]):
                            return [({(): ("&", (pl[0], pl[1] + ("Object.0", "[%d]" % j, "1")), True)}, {})]
                    at = pl[1] + ("Object.0", "[%d]" % k[1])
                    return [({(): ("&", (pl[0], at + ("1",)), True)}, {(pl[0], at + ("0",)): ("c", "s:" + text(env, v[1])), (pl[0], at + ("1",)): ("v", "Null"), (pl[0], pl[1] + ("Object.0", "#")): ("c", k[1] + 1)})]
        if path.startswith("humphrey_json::value::Value::") and A:
            r = self.value(n, m, A, v, env)
            if r is not None:
                return r
        if m in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp") and len(v) == 2:
            for x in v:
                w, pl = resolve(env, x)
                if w and w[0] == "v" and w[1] in ("String", "Null") and pl is not None:
                    self.use(env, pl, n)
                elif text(env, x) is not None and UNK_CH not in text(env, x):
                    self.used.append((text(env, x), bool(g(env, "lost")), n))
        if m in ("from_utf8", "from_utf8_lossy") and len(v) == 1:
            s = text(env, v[0])
            if s is not None:
                return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:" + s)} if m == "from_utf8" else S(s), {})]
        if m == "eq_ignore_ascii_case" and len(v) == 2:
            a, b = text(env, v[0]), text(env, v[1])
            if a is not None and b is not None and UNK_CH not in a + b:
                return [({(): ("c", a.lower() == b.lower())}, {})]
        if m in ("as_bytes", "into_bytes", "as_os_str", "to_string_lossy", "as_path", "to_path_buf", "into_owned", "to_vec", "as_mut_os_str") and len(v) == 1 or path == "std::path::Path::new":
            s = text(env, v[0])
            if s is not None:
                return [({(): ("c", "s:" + s)}, {})]
        if m == "components" and text(env, v[0]) is not None:
            s = text(env, v[0])
            its = [{(): ("v", "RootDir")}] if s.startswith("/") else []
            for i, x in enumerate(s.split("/")):
                if x == "..":
                    its.append({(): ("v", "ParentDir")})
                elif x == "." and i == 0:
                    its.append({(): ("v", "CurDir")})
                elif x not in ("", "."):
                    its.append({(): ("v", "Normal"), ("Normal.0",): ("c", "s:" + x)})
            return [(self.iterate(its), {})]
        if m == "parse" and len(v) == 1 and text(env, v[0]) is not None:
            s = text(env, v[0])
            d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
            if re.search(r"Result<(usize|u\d+)", d):
                if s.isdigit():
                    return [({(): ("v", "Ok"), ("Ok.0",): ("c", int(s))}, {})]
                return [({(): ("v", "Err")}, {})]
        if m in ("extend_from_slice", "push_str", "write_all", "write_str", "append", "extend") and len(v) == 2:
            old, pl = resolve(env, v[0])
            if pl is not None and old and old[0] == "c" and isinstance(old[1], str):
                s = text(env, v[1])
                if s is None:
                    w, q = resolve(env, v[1])
                    s = UNK_CH
                gh = {pl: ("c", old[1] + s)}
                return [({(): ("v", "Ok")} if m.startswith("write") else {}, gh)]
        if path in ("alloc::vec::Vec::new", "alloc::string::String::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::with_capacity"):
            d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
            if "<u8>" in d or "String" in d and "Vec" not in d:
                return [(S(""), {})]
            return [(self.made([]), {})]
        if m == "execute" and trait.endswith("functions::Function") or path.endswith("LocatableToken::process"):
            self.lost(env)
            return []
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def array(self, frame, s, env):
        if not s["p"][1]:
            env[((frame.id, s["p"][0]), LEN)] = ("c", len(s["r"]["ops"]))

    KIND = {"as_str": "String", "as_array": "Array", "as_object": "Object", "as_bool": "Bool", "as_number": "Number"}

    def value(self, n, m, A, v, env):
        w, pl = resolve(env, v[0])
        if w is None or w[0] != "v" or pl is None:
            return None
        if m in self.KIND:
            self.use(env, pl, n)
            if w[1] != self.KIND[m]:
                return [({(): ("v", "None")}, {})]
            sub = {(): ("v", "Some")}
            f = (pl[0], pl[1] + (self.KIND[m] + ".0",))
            if m in ("as_bool", "as_number"):
                if env.get(f):
                    sub[("Some.0",)] = env[f]
            else:
                sub[("Some.0",)] = ("&", f, False)
            return [(sub, {})]
        if m == "get" and len(A) == 2:
            s = text(env, v[1])
            i, _ = resolve(env, v[1])
            if s is not None:
                if w[1] == "Object":
                    k = env.get((pl[0], pl[1] + ("Object.0", "#")))
                    for j in range(k[1] if k else 0):
                        if text(env, ("&", (pl[0], pl[1] + ("Object.0", "[%d]" % j, "0")), False)) == s:
                            return [({(): ("v", "Some"), ("Some.0",): ("&", (pl[0], pl[1] + ("Object.0", "[%d]" % j, "1")), False)}, {})]
                return [({(): ("v", "None")}, {})]
            if i and i[0] == "c" and isinstance(i[1], int):
                k = env.get((pl[0], pl[1] + ("Array.0", "#")))
                if w[1] == "Array" and k and i[1] < k[1]:
                    return [({(): ("v", "Some"), ("Some.0",): ("&", (pl[0], pl[1] + ("Array.0", "[%d]" % i[1])), False)}, {})]
                return [({(): ("v", "None")}, {})]
        return None

    def use(self, env, pl, n):
        try:
            self.used.append((python(env, pl), bool(g(env, "lost")), n))
        except Unknown:
            pass

    # ---------------------------------------------------------------- outcome
    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        self.ends.append((v[1] if v and v[0] == "v" else None, env, bool(g(env, "lost"))))
