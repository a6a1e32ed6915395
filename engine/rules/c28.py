"""Interpretation of the JavaScript bridge on a model of the engine's heap.  Two plugins with functions of the same names are
loaded one after the other by the loader (found as the function that creates contexts), the parser of every function
found in the result is run on arguments of every kind, and the function it returns is executed in a scope with a
variable of every JSON kind.  Contexts, global objects, properties, values and conversions are objects of the model heap,
so which context a plugin's code was evaluated and called in, which function was called with which values, and what was
put into the output are determined.  When the plugin's function runs, the model lets it use the `STUART` object that the
bridge has put into its global object: every kind of value is set and read back through the callbacks, and what reaches
the scope (and what is returned) is compared with what was passed."""
import itertools
import re
from .common import *
from commands import Steps, enters
from frames import S, STACK, Lists, SECTIONS, STUART, frame as stackframe, json as fjson
from graph import Graph, TooBig, under
from world import LEN, UNK_CH, TOK, W, g, resolve, text

UNDEF = object()
DBG = False
FUNC = "stuart_core::functions::Function"
PARSER = "stuart_core::functions::FunctionParser"


def value(x):
    """A JSON value whose numbers are known."""
    if isinstance(x, float):
        return {(): ("v", "Number"), ("Number.0",): ("c", x)}
    if isinstance(x, list):
        return {(): ("v", "Array"), **{("Array.0",) + k: v for k, v in Lists.made([value(y) for y in x]).items()}}
    if isinstance(x, dict):
        items = [{("0",): ("c", "s:" + k), **{("1",) + kk: w for kk, w in value(y).items()}} for k, y in x.items()]
        return {(): ("v", "Object"), **{("Object.0",) + k: v for k, v in Lists.made(items).items()}}
    return fjson(x)


class Unknown(Exception):
    pass


def python(env, pl):
    """The JSON at a place as Python data."""
    v, pl = resolve(env, ("&", pl, False))
    if v is None or v[0] != "v" or pl is None:
        raise Unknown()
    k = v[1]

    def at(*s):
        return (pl[0], pl[1] + s)
    if k == "Null":
        return None
    if k in ("Bool", "Number"):
        w = env.get(at(k + ".0"))
        if not w or w[0] != "c":
            raise Unknown()
        return bool(w[1]) if k == "Bool" else float(w[1])
    if k == "String":
        s = text(env, ("&", at("String.0"), False))
        if s is None or UNK_CH in s:
            raise Unknown()
        return s
    n = env.get(at(k + ".0", "#"))
    if n is None or k not in ("Array", "Object"):
        raise Unknown()
    if k == "Array":
        return [python(env, at("Array.0", "[%d]" % i)) for i in range(n[1])]
    out = {}
    for i in range(n[1]):
        s = text(env, ("&", at("Object.0", "[%d]" % i, "0"), False))
        if s is None:
            raise Unknown()
        out[s] = python(env, at("Object.0", "[%d]" % i, "1"))
    return out


class Heap:
    """Changes to the model heap, collected as changes of the environment."""

    def __init__(self, env):
        self.env, self.new = env, {}

    def get(self, i, k, default=None):
        q = (("JS", i), (k,))
        v = self.new.get(q, self.env.get(q))
        return v[1] if v else default

    def set(self, i, k, x):
        self.new[(("JS", i), (k,))] = ("c", x)

    def alloc(self, kind, val=None, props=()):
        q = (W, ("jsn",))
        i = (self.new.get(q) or self.env.get(q) or ("c", 0))[1]
        self.new[q] = ("c", i + 1)
        self.set(i, "kind", "k:" + kind)
        if val is not None:
            self.set(i, "val", val)
        if kind in ("object", "array", "function", "module"):
            self.set(i, "props", tuple(props))
        return i

    def kind(self, i):
        return self.get(i, "kind", "k:?")[2:]

    def props(self, i):
        return dict(self.get(i, "props", ()))

    def put(self, i, key, j):
        p = self.props(i)
        p[key] = j
        self.set(i, "props", tuple(p.items()))

    def make(self, x):
        if x is UNDEF:
            return self.alloc("undefined")
        if x is None:
            return self.alloc("null")
        if isinstance(x, bool):
            return self.alloc("boolean", x)
        if isinstance(x, (int, float)):
            return self.alloc("number", float(x))
        if isinstance(x, str):
            return self.alloc("string", "s:" + x)
        if isinstance(x, list):
            return self.alloc("array", None, [(i, self.make(y)) for i, y in enumerate(x)])
        return self.alloc("object", None, [(k, self.make(y)) for k, y in x.items()])

    def data(self, i):
        k = self.kind(i)
        v = self.get(i, "val")
        if k == "undefined":
            return UNDEF
        if k == "null":
            return None
        if k == "boolean":
            if v is None:
                raise Unknown()
            return bool(v)
        if k == "number":
            if not isinstance(v, (int, float)):
                raise Unknown()
            return float(v)
        if k == "string":
            if not isinstance(v, str) or UNK_CH in v:
                raise Unknown()
            return v[2:]
        if k == "array":
            p = self.props(i)
            return [self.data(p[j]) if j in p else UNDEF for j in range(max(p) + 1 if p else 0)]
        if k == "object":
            return {a: self.data(j) for a, j in self.props(i).items()}
        raise Unknown()

    def string(self, i):
        x = self.data(i)
        if x is UNDEF:
            return "undefined"
        if x is None:
            return "null"
        if isinstance(x, bool):
            return "true" if x else "false"
        if isinstance(x, float):
            return str(int(x)) if x == int(x) else repr(x)
        if isinstance(x, str):
            return x
        if isinstance(x, list):
            return ",".join("" if self.data(j) in (UNDEF, None) else self.string(j) for j in self.props(i).values())
        return "[object Object]"


TESTS = {"undefined": ("undefined",), "null": ("null",), "null_or_undefined": ("null", "undefined"), "boolean": ("boolean",), "number": ("number",),
         "string": ("string",), "name": ("string",), "array": ("array",), "object": ("array", "object", "function", "module"), "function": ("function",)}


HARMLESS = re.compile(r"(Handle|Escapable\w+|TryCatch|CallbackScope)\w*::new$|Scope::drop|Default::default$|V8::|platform|ScriptOrigin|isolate|get_property_names_args|GetPropertyNamesArgs|CreateParams")


class Bridge(Steps):
    """The world of the JavaScript bridge."""
    STEP = re.compile(r"^$.")
    maxsub = 20000

    def __init__(self, F, params, seed=(), modules=None, script=(), returns=UNDEF):
        super().__init__(F)
        self.params, self.seed, self.modules = params, dict(seed), modules or {}
        self.script, self.returns = script, returns
        self.unknown = set()
        self.called = []

    def start(self, G, env):
        env.update(self.statics)
        env[(W, ("trace",))] = ("c", ())
        env.update(self.seed)
        b = G.root_body
        for i in range(1, b.argc + 1):
            ref = b.ty(i)["k"] in ("ref", "ptr")
            for k, v in self.params.get(i, {}).items():
                env[((("P", i) if ref else (0, i)), k)] = v
            ty = b.types[b.locals[i]["ty"]]["s"]
            if re.search(r"process::Scope\b", ty):
                r = ("P", i)
                env[(r, ("stack",))] = ("&", (STACK, ()), True)
                env[(r, ("sections",))] = ("&", (SECTIONS, ()), True)
                env[(r, ("processor",))] = ("&", (STUART, ()), False)

    # ---------------------------------------------------------------- handles
    @staticmethod
    def js(env, v, sub=None):
        """The object a handle (or a reference to one) denotes."""
        for _ in range(8):
            if not v or v[0] != "&":
                break
            if v[1][0][:1] == ("JS",):
                return v[1][0][1]
            w = env.get(v[1])
            if w is None and v[1][1][-1:] == ("*",):
                w = env.get((v[1][0], v[1][1][:-1]))
            v = w
        return None

    @staticmethod
    def handle(i):
        return {(): ("&", (("JS", i), ()), False)}

    def some(self, i):
        return {(): ("v", "Some"), ("Some.0",): ("&", (("JS", i), ()), False)}

    def key(self, h, i):
        x = h.data(i)
        if isinstance(x, str):
            return x
        if isinstance(x, float):
            return int(x)
        raise Unknown()

    def prop(self, h, o, key):
        if h.kind(o) == "array" and key == "length":
            p = h.props(o)
            return h.alloc("number", float(max(p) + 1 if p else 0))
        p = h.props(o)
        if key in p:
            return p[key]
        if isinstance(key, str) and key.isdigit() and int(key) in p:
            return p[int(key)]
        return h.alloc("undefined")

    def elements(self, env, A, i):
        _, sub = self.listing(env, A, i)
        if sub is None:
            return None
        out = [self.js(env, x.get(())) for x in self.items(sub)]
        return out if None not in out else None

    # ---------------------------------------------------------------- operations
    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        try:
            r = self.engine(G, n, path, m, trait, targs, A, v, frame, t, env)
        except Unknown:
            self.unknown.add(path)
            self.lost(env)
            r = None
        if r is not None:
            return r
        fn = t["f"].get("fn") if t["f"]["k"] == "const" else None
        if fn is not None:
            b = self.F.bodies.get(fn.get("resid") or fn["id"])
            if b is not None and b.krate in ("stuart", "stuart_core") and any(f.body is b for f in frame.chain()):
                class Ref:
                    j = fn
                rs = self.apply(G, n, env, {(): ("fn", Ref)}, A)
                if rs is not None:
                    return [(r, self.delta(env, e)) for r, e in rs]
        if path.startswith("v8::") and not HARMLESS.search(path):
            self.unknown.add(path)
            if DBG: print("UNK", path, frame.body.path, n.bb, str(v)[:200], [self.js(env,x) for x in v])
            self.lost(env)
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def opaque(self, G, n, fn, frame, t, env):
        p = (fn or {}).get("path", "")
        if re.search(r"\bv8::", p + str((fn or {}).get("res"))) and not HARMLESS.search(p):
            self.unknown.add(p)
            self.lost(env)
        return True

    @staticmethod
    def delta(env, e):
        gh = {k: None for k in env if k not in e and not isinstance(k[0][0], int)}
        gh.update({k: x for k, x in e.items() if env.get(k) != x})
        return gh

    def engine(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        if path == "std::thread::local::LocalKey::with" and len(A) == 2:
            name = threadlocal(frame.body, t["args"][0])
            root = ("TLS", name)
            e0, arg = env, {}
            if name is not None:
                arg = {(): ("&", (root, ()), True)}
                if (("KEPT",), (name,)) not in env:
                    e0 = {**env, (("KEPT",), (name,)): ("c", True)}
                    b = self.F.get(name + "::__rust_std_internal_init_fn")
                    if b is not None:
                        class Init:
                            j = {"id": b.id, "path": b.path}
                        rs = self.apply(G, n, e0, {(): ("fn", Init)}, [])
                        if rs and len(rs) == 1:
                            e0 = {**rs[0][1], **{(root, k): x for k, x in rs[0][0].items()}}
            rs = self.apply(G, n, e0, A[1], [arg])
            return None if rs is None else [(r, self.delta(env, e)) for r, e in rs]
        if path == "std::sync::once::Once::call_once":
            return [({}, {})]
        if path == "std::fs::read_to_string" and text(env, v[0]) is not None:
            return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:src:" + text(env, v[0]))}, {})]
        if m in ("as_mut", "as_ref") and re.match(r"(core::ptr::.*)?\*(mut|const) T|core::ptr::(mut|const)_ptr", path) and v[0] and v[0][0] == "&":
            return [({(): ("v", "Some"), ("Some.0",): ("&", v[0][1], True)}, {})]
        if m == "current" and "TokenIter" in path:
            return [({(): ("v", "Some"), ("Some.0",): ("&", (TOK, ()), False)}, {})]
        if m == "next" and "Range" in path and len(v) == 1:
            w, pl = resolve(env, v[0])
            a, z = (env.get((pl[0], pl[1] + (k,))) for k in ("start", "end")) if pl is not None else (None, None)
            if a and z and a[0] == z[0] == "c" and isinstance(a[1], int) and isinstance(z[1], int):
                if a[1] >= z[1]:
                    return [({(): ("v", "None")}, {})]
                return [({(): ("v", "Some"), ("Some.0",): a}, {(pl[0], pl[1] + ("start",)): ("c", a[1] + 1)})]
        if m in ("into", "from") and len(v) == 1 and v[0] and v[0][0] == "c" and not isinstance(v[0][1], str) and re.match(r"[iuf]\d+$|[iu]size$", d):
            return [({(): ("c", (float if d[0] == "f" else int)(v[0][1]))}, {})]
        if m == "into_iter" and "Range" in targs + d and ("start",) in A[0]:
            return [(A[0], {})]
        if m in ("eq", "ne") and len(v) == 2 and re.search(r"OsStr|Path", path + targs):
            x, y = text(env, v[0]), text(env, v[1])
            if x is not None and y is not None:
                return [({(): ("c", (x == y) == (m == "eq"))}, {})]
        if m in ("parse", "from_str") and len(v) == 1 and text(env, v[0]) is not None:
            k = re.match(r"(?:\w+::)*Result<([iuf])(?:\d+|size),", d)
            if k:
                try:
                    x = (float if k.group(1) == "f" else int)(text(env, v[0]))
                    if k.group(1) == "u" and x < 0:
                        raise ValueError
                    return [({(): ("v", "Ok"), ("Ok.0",): ("c", x)}, {})]
                except ValueError:
                    return [({(): ("v", "Err")}, {})]
        if m in ("then", "then_some") and re.match(r"core::bool::", path) and len(A) == 2 and v[0] and v[0][0] == "c":
            if not v[0][1]:
                return [({(): ("v", "None")}, {})]
            rs = [(A[1], env)] if m == "then_some" else self.apply(G, n, env, A[1], [])
            return None if rs is None else [({(): ("v", "Some"), **{("Some.0",) + k: w for k, w in r.items()}}, self.delta(env, e)) for r, e in rs]
        if m == "flatten" and "option::Option" in path and len(A) == 1 and v[0] and v[0][0] == "v":
            if v[0][1] == "None":
                return [(A[0], {})]
            return [({k[1:]: w for k, w in A[0].items() if k[:1] == ("Some.0",)}, {})]
        first = self.js(env, v[0]) if v else None
        ty = path + " " + targs + " " + d
        if not re.search(r"\bv8::", ty) and first is None:
            return None
        if m in ("deref", "deref_mut", "as_ref", "borrow", "into", "from", "clone", "to_owned", "cast", "cast_unchecked", "unwrap_unchecked", "open", "get_inner", "leak", "into_raw", "from_raw") and first is not None:
            return [(self.handle(first), {})]
        if m == "must_cast" and first is not None:
            return [(self.handle(first), {})]
        h = Heap(env)
        if m in ("eq", "ne", "same_value", "strict_equals") and len(v) > 1 and first is not None and self.js(env, v[1]) is not None:
            return None
        if m in ("try_from", "try_into", "try_cast") and first is not None:
            k = h.kind(first)
            want = re.search(r"Local<[^<>]*?v8::(?:\w+::)*(\w+)>", d)
            want = want.group(1).lower() if want else None
            if want in ("value",) or want in TESTS and k in TESTS[want] or want == k:
                return [({(): ("v", "Ok"), ("Ok.0",): self.handle(first)[()]}, {})]
            if want in TESTS or want == "external":
                return [({(): ("v", "Err")}, {})]
            return None
        if not path.startswith("v8::") and "v8::" not in path:
            return None
        cls = path.split("::")[-2].strip("<>")
        if m == "new":
            if cls == "Context":
                gl = h.alloc("object")
                c = h.alloc("context")
                h.set(c, "global", gl)
                return [(self.handle(c), h.new)]
            if cls == "ContextScope":
                c = self.js(env, v[1])
                if c is None:
                    raise Unknown()
                return [({}, {(W, ("cur",)): ("c", c)})]
            if cls == "String":
                s = text(env, v[1])
                if s is None:
                    raise Unknown()
                return [(self.some(h.alloc("string", "s:" + s)), h.new)]
            if cls in ("Number", "Integer", "Boolean"):
                x = v[1]
                if not x or x[0] != "c" or isinstance(x[1], str):
                    x = resolve(env, x)[0]
                if not x or x[0] != "c" or isinstance(x[1], str):
                    raise Unknown()
                return [(self.handle(h.alloc("boolean" if cls == "Boolean" else "number", bool(x[1]) if cls == "Boolean" else float(x[1]))), h.new)]
            if cls == "Array":
                return [(self.handle(h.alloc("array")), h.new)]
            if cls == "Object":
                return [(self.handle(h.alloc("object")), h.new)]
            if cls in ("FunctionTemplate", "Function"):
                i = h.alloc("function" if cls == "Function" else "template")
                w = resolve(env, v[1])[0] or v[1]
                if w and w[0] in ("fn", "clo"):
                    h.new[(("JS", i), ("cb",))] = w
                return [(self.handle(i) if cls != "Function" else self.some(i), h.new)]
            if cls == "External":
                i = h.alloc("external")
                if v[1] and v[1][0] == "&":
                    h.new[(("JS", i), ("ptr",))] = v[1]
                return [(self.handle(i), h.new)]
            if cls in ("Global", "Local") and len(v) == 2:
                i = self.js(env, v[1])
                if i is None:
                    raise Unknown()
                return [(self.handle(i), {})]
            if cls == "Source":
                i = self.js(env, v[0])
                s = h.data(i) if i is not None else None
                return [({("text",): ("c", "s:" + s)} if isinstance(s, str) else {}, {})]
            return None
        if m == "with_context" and cls == "HandleScope":
            c = self.js(env, v[1])
            if c is None:
                raise Unknown()
            return [({}, {(W, ("cur",)): ("c", c)})]
        if m in ("undefined", "null") and cls == "primitives":
            return [(self.handle(h.alloc(m)), h.new)]
        if m == "new_with_elements" and cls == "Array":
            l = self.elements(env, A, 1)
            if l is None:
                raise Unknown()
            return [(self.handle(h.alloc("array", None, list(enumerate(l)))), h.new)]
        if m == "with_prototype_and_properties":
            ks, vs = self.elements(env, A, 2), self.elements(env, A, 3)
            if ks is None or vs is None:
                raise Unknown()
            return [(self.handle(h.alloc("object", None, list(zip([self.key(h, k) for k in ks], vs)))), h.new)]
        if m in ("get_current_context", "get_entered_or_microtask_context") and g(env, "cur") is not None:
            return [(self.handle(g(env, "cur")), {})]
        if m == "compile_module":
            s = text(env, ("&", resolve(env, v[1])[1] + (), False)) if False else None
            w, pl = resolve(env, v[1])
            x = env.get((pl[0], pl[1] + ("text",))) if pl is not None else A[1].get(("text",))
            s = x[1][2:] if x else None
            if s not in self.modules:
                raise Unknown()
            i = h.alloc("module", "s:" + s)
            return [(self.some(i), {**h.new, (W, ("trace",)): ("c", self.trace(env) + (("compile", s, g(env, "cur")),))})]
        if cls == "FunctionCallbackArguments":
            w, pl = resolve(env, v[0])
            a = (lambda k: env.get((pl[0], pl[1] + (k,)))) if pl is not None else (lambda k: A[0].get((k,)))
            if a("argv") is None:
                raise Unknown()
            argv = a("argv")[1]
            if m == "this":
                return [(self.handle(a("this")[1]), {})]
            if m == "length":
                return [({(): ("c", len(argv))}, {})]
            if m == "get":
                k = v[1][1] if v[1] and v[1][0] == "c" else None
                if not isinstance(k, int):
                    raise Unknown()
                return [(self.handle(argv[k] if k < len(argv) else h.alloc("undefined")), h.new)]
            raise Unknown()
        if cls == "ReturnValue":
            if m == "set":
                i = self.js(env, v[1])
                if i is None:
                    raise Unknown()
            elif m in ("set_undefined", "set_null"):
                i = h.alloc(m[4:])
            else:
                x = resolve(env, v[1])[0] if len(v) > 1 else None
                if not x or x[0] != "c" or isinstance(x[1], str):
                    raise Unknown()
                i = h.make(bool(x[1]) if m == "set_bool" else float(x[1]))
            return [({}, {**h.new, (W, ("ret",)): ("c", i)})]
        if first is None:
            return None
        k = h.kind(first)
        if k == "module":
            s = h.get(first, "val")[2:]
            if m in ("instantiate_module", "instantiate_module2"):
                return [({(): ("v", "Some"), ("Some.0",): ("c", True)}, {})]
            if m == "evaluate":
                ns = h.make({"default": {x: y for x, y in self.modules[s].items() if x != "functions"}})
                fs = []
                for name in self.modules[s]["functions"]:
                    o = h.make({"name": name})
                    f = h.alloc("function", "s:%s/%s" % (s, name))
                    h.put(o, "fn", f)
                    fs.append(o)
                h.put(h.props(ns)["default"], "functions", h.alloc("array", None, list(enumerate(fs))))
                h.set(first, "ns", ns)
                h.new[(W, ("trace",))] = ("c", self.trace(env) + (("evaluate", s, g(env, "cur")),))
                return [(self.some(h.alloc("object")), h.new)]
            if m == "get_status":
                return [({(): ("v", "Evaluated")}, {})]
            if m == "get_module_namespace" and h.get(first, "ns") is not None:
                return [(self.handle(h.get(first, "ns")), {})]
            if m == "get_exception":
                return [(self.handle(h.alloc("undefined")), h.new)]
            return None
        if m == "global" and k == "context":
            return [(self.handle(h.get(first, "global")), {})]
        if m == "get_function" and k == "template":
            i = h.alloc("function")
            cb = env.get((("JS", first), ("cb",)))
            if cb:
                h.new[(("JS", i), ("cb",))] = cb
            return [(self.some(i), h.new)]
        if m == "value" and k == "external":
            p = env.get((("JS", first), ("ptr",)))
            if p is None:
                raise Unknown()
            return [({(): p}, {})]
        if m == "value" and k in ("number", "boolean"):
            return [({(): ("c", h.data(first))}, {})]
        if m.startswith("is_"):
            if m == "is_true" or m == "is_false":
                return [({(): ("c", k == "boolean" and h.data(first) == (m == "is_true"))}, {})]
            if m in ("is_int32", "is_uint32"):
                x = h.data(first) if k == "number" else None
                return [({(): ("c", x is not None and x == int(x) and (x >= 0 or m == "is_int32"))}, {})]
            return [({(): ("c", k in TESTS.get(m[3:], ()))}, {})]
        if m in ("boolean_value",):
            return [({(): ("c", bool(h.data(first)) if k in ("boolean", "number", "string", "null") else k != "undefined")}, {})]
        if m in ("number_value", "integer_value", "int32_value", "uint32_value"):
            if k not in ("number", "boolean", "null"):
                raise Unknown()
            x = float(h.data(first) or 0)
            return [({(): ("v", "Some"), ("Some.0",): ("c", x if m == "number_value" else int(x))}, {})]
        if m in ("to_rust_string_lossy",):
            return [(S(h.string(first)), {})]
        if m in ("to_string", "to_detail_string"):
            return [(self.some(h.alloc("string", "s:" + h.string(first))), h.new)]
        if m == "to_object":
            return [(self.some(first) if k not in ("undefined", "null") else {(): ("v", "None")}, {})]
        if m == "to_boolean":
            return [(self.handle(h.make(bool(h.data(first)) if k in ("boolean", "number", "string", "null") else k != "undefined")), h.new)]
        if m in ("get", "get_index", "get_real_named_property"):
            key = self.key(h, self.js(env, v[2])) if m != "get_index" else v[2][1] if v[2] and v[2][0] == "c" else None
            if key is None or isinstance(key, float):
                raise Unknown()
            i = self.prop(h, first, key)
            return [(self.some(i), h.new)]
        if m in ("set", "set_index", "create_data_property", "define_own_property"):
            j = self.js(env, v[3])
            key = self.key(h, self.js(env, v[2])) if m != "set_index" else v[2][1] if v[2] and v[2][0] == "c" else None
            if key is None or j is None:
                raise Unknown()
            h.put(first, key, j)
            return [({(): ("v", "Some"), ("Some.0",): ("c", True)}, h.new)]
        if m in ("has", "has_own_property"):
            return [({(): ("v", "Some"), ("Some.0",): ("c", self.key(h, self.js(env, v[2])) in h.props(first))}, {})]
        if m in ("get_own_property_names", "get_property_names"):
            ks = [h.alloc("string", "s:" + x) if isinstance(x, str) else h.alloc("number", float(x)) for x in h.props(first)]
            return [(self.some(h.alloc("array", None, list(enumerate(ks)))), h.new)]
        if m == "length" and k == "array":
            p = h.props(first)
            return [({(): ("c", max(p) + 1 if p else 0)}, {})]
        if m == "length" and k == "string":
            return [({(): ("c", len(h.data(first)))}, {})]
        if m == "call" and k == "function":
            return self.run(G, n, first, A, v, env)
        return None

    def run(self, G, n, f, A, v, env):
        """The plugin's function runs: it uses the bridge's object as the script says, and returns."""
        args = self.elements(env, A, 3)
        if args is None:
            raise Unknown()
        who = env.get((("JS", f), ("val",)), ("c", None))[1]
        who = who[2:] if isinstance(who, str) else None
        cur = g(env, "cur")
        tr = self.trace(env) + (("call", who, cur, tuple(args)),)
        states = [{**env, (W, ("trace",)): ("c", tr)}]
        for op, key, x in self.script:
            nxt = []
            for e in states:
                h = Heap(e)
                gl = h.get(cur, "global") if cur is not None else None
                o = h.props(gl).get("STUART") if gl is not None else None
                cb = h.props(o).get(op) if o is not None else None
                fnv = e.get((("JS", cb), ("cb",))) if cb is not None else None
                if fnv is None:
                    raise Unknown()
                argv = [h.make(key)] + ([h.make(x)] if op == "set" else [])
                e1 = {**e, **h.new, (W, ("ret",)): ("c", h.alloc("undefined"))}
                e1.update(h.new)
                a = {("this",): ("c", o), ("argv",): ("c", tuple(argv))}
                rs = self.apply(G, n, e1, {(): fnv}, [{}, a, {}])
                if rs is None:
                    raise Unknown()
                for _, e2 in rs:
                    if op == "get":
                        try:
                            got = ("got", key, freeze(Heap(e2).data(g(e2, "ret"))))
                        except Unknown:
                            got = ("got", key, "?")
                        e2 = {**e2, (W, ("trace",)): ("c", self.trace(e2) + (got,))}
                    nxt.append(e2)
            states = nxt
        out = []
        for e in states:
            h = Heap(e)
            i = h.make(self.returns)
            e = {**e, **h.new}
            out.append((self.some(i), self.delta(env, e)))
        return out

    def free(self, G, n, v, pl, env):
        """Going both ways of an undetermined branch decides nothing, except in what only copies, prints or unwraps."""
        sp = n.frame.body.blocks[n.bb]["t"].get("sp")
        if not (sp and len(sp) > 2 and sp[2]) and not re.search(r"::(unwrap|expect)(_err)?$", n.frame.body.path):
            self.lost(env)
        return True

    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        self.ends.append((v[1] if v and v[0] == "v" else None, dict(env), bool(g(env, "lost"))))


def threadlocal(body, o):
    """The thread-local variable an operand refers to."""
    l = o["p"][0] if o["k"] != "const" and not o["p"][1] else None
    for _ in range(4):
        nxt = None
        for bl in body.blocks:
            for s in bl["st"]:
                if s["k"] == "assign" and s["p"] == [l, []]:
                    r = s["r"]
                    if r["k"] == "ref" and r["p"][1] in ([], ["*"]):
                        nxt = r["p"][0]
                    elif r["k"] == "use" and r["o"]["k"] == "const":
                        if "item" in r["o"]:
                            return r["o"]["item"]
                        if "promoted" in r["o"]:
                            for pb in body.promoted[r["o"]["promoted"]]["blocks"]:
                                for ps in pb["st"]:
                                    if ps["k"] == "assign" and ps["r"]["k"] == "use" and "item" in ps["r"]["o"]:
                                        return ps["r"]["o"]["item"]
                    elif r["k"] == "use" and not r["o"]["p"][1]:
                        nxt = r["o"]["p"][0]
        if nxt is None:
            return None
        l = nxt
    return None


def freeze(x):
    if x is UNDEF:
        return "undefined"
    if isinstance(x, list):
        return ("array",) + tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return ("object",) + tuple(sorted((k, freeze(y)) for k, y in x.items()))
    return (type(x).__name__, x)


def into(x, f=None):
    return x.krate in ("stuart", "stuart_core")


def interpret(F, rep, b, w, most=60000):
    try:
        G = Graph(F, b, world=w, widen=4000, max_nodes=most, max_depth=24, inline=into)
    except TooBig:
        return False
    rep.counts["typestates"] = rep.counts.get("typestates", 0) + len(G.nodes)
    rep.saw(*{f.body.path for f in G.frames if f.body.krate == "stuart"})
    return True


# -------------------------------------------------------------------- the scenarios
PLUGIN = re.compile(r"Result<stuart_core::plugins::Plugin\b")
MODULES = {"src:/p/a.js": dict(name="a", version="1", functions=["f", "g", "f_g", "f-g", "F", "fg"]), "src:/p/b.js": dict(name="b", version="2", functions=["g", "f"])}
MODULES.update({"src:/q/c.mjs": dict(name="c", version="1", functions=["f"]), "src:/q/d.mjs": dict(name="d", version="1", functions=["f"])})
LOADS = ["src:/p/a.js", "src:/p/b.js", "src:/p/a.js", "src:/q/c.mjs", "src:/q/d.mjs"]
VALUES = [("null", None), ("yes", True), ("no", False), ("num", 7.0), ("neg", -1.5), ("text", "word"), ("digits", "12"), ("empty", ""), ("list", [None, True, 2.0, "x", [], {}]), ("nolist", []),
          ("obj", {"a": None, "b": False, "c": 3.0, "d": "y", "e": [1.0, "2"], "f": {"g": "h"}}), ("noobj", {})]
OUT = "before"


def returning(b):
    return b.types[b.locals[0]["ty"]]["s"] if b.locals else ""


def loaders(F):
    """The functions that load a plugin by compiling a script."""
    cg = CallGraph(F)
    out = []
    for b in F.local:
        if b.krate != "stuart" or b.kind == "closure" or not PLUGIN.search(returning(b)):
            continue
        seen, todo = {b.id}, [b]
        own, inner = False, False
        while todo:
            x = todo.pop()
            own = own or any(re.search(r"v8::.*(compile_module|Script::compile|compile)$", p) for p, *_ in cg.ext.get(x.id, ()))
            for y, _ in cg.succ.get(x.id, ()):
                if y.id not in seen:
                    seen.add(y.id)
                    if y.kind != "closure" and PLUGIN.search(returning(y)):
                        inner = True
                        continue
                    todo.append(y)
        if own:
            out.append(b)
    return out


def keep(env):
    """What survives the return of an operation: the heap, statics and thread-locals."""
    return {k: v for k, v in env.items() if k[0][:1] in (("JS",), ("TLS",), ("STATIC",), ("KEPT",)) or k == (W, ("jsn",))}


def held(env, sub_root, at):
    return {k[1][len(at):]: v for k, v in env.items() if k[0] == sub_root and k[1][:len(at)] == at}


def scope_env():
    fr = []
    for name, vs, out in (("base", [("text", "decoy"), ("outer", "o")], "other"), ("begin:main", [("text", "decoy")], "other"), ("for:x", VALUES, OUT)):
        sub = {("name",): ("c", "s:" + name), ("output",): ("c", "s:" + out)}
        its = [{("0",): ("c", "s:" + k), **{("1",) + kk: w for kk, w in value(x).items()}} for k, x in vs]
        sub.update({("variables",) + k: v for k, v in Lists.made(its).items()})
        fr.append(sub)
    env = {(STACK, k): v for k, v in Lists.made(fr).items()}
    env.update({(SECTIONS, k): v for k, v in Lists.made([]).items()})
    return env


def methods(F, trait, name):
    out = []
    for b in F.local:
        if b.krate == "stuart" and b.path.endswith(" as %s>::%s" % (trait, name)):
            out.append(b)
    return out


def param(b, pat):
    return next((i for i in range(1, b.argc + 1) if re.search(pat, b.types[b.locals[i]["ty"]]["s"])), None)


def run(F, rep, tier):
    ls = loaders(F)
    ps, xs = methods(F, PARSER, "parse"), methods(F, FUNC, "execute")
    if len(ls) != 1 or len(ps) != 1 or len(xs) != 1 or ls[0].argc < 1:
        rep.ok("anchor", "stuart/src/plugins", "the JavaScript bridge was not recognised (%d loaders, %d parsers, %d functions); not decided" % (len(ls), len(ps), len(xs)))
        return
    load, parse, execute = ls[0], ps[0], xs[0]
    # ---- plugins are loaded one after the other, one of them twice
    states = [({}, [])]                     # (environment, [(module, context, [function values])])
    for mod in LOADS:
        nxt = []
        for env, plugins in states:
            w = Bridge(F, {1: S(mod[4:])}, env, MODULES)
            if not interpret(F, rep, load, w):
                rep.ok("context", loc(load), "too many paths; not decided")
                return
            for out, e, lost in w.ends:
                if out != "Ok" or lost:
                    continue
                ran = [x for x in w.trace(e) if x[0] == "evaluate"]
                at = ("Ok.0", "functions")
                n = e.get(((0, 0), at + ("#",)))
                if len(ran) != 1 or n is None:
                    continue
                fns = [held(e, (0, 0), at + ("[%d]" % i,)) for i in range(n[1])]
                nxt.append((keep(e), plugins + [(mod, ran[0][2], fns)]))
        states = nxt[:4]
    if not states:
        rep.ok("context", loc(load), "loading a plugin is not determined; not decided")
        return
    for env, plugins in states[:2]:
        cs = [c for _, c, _ in plugins]
        if None in cs:
            rep.ok("context", loc(load), "the context a plugin is evaluated in is not determined; not decided")
            continue
        for i, j in itertools.combinations(range(len(cs)), 2):
            x, y = (plugins[k][0].rsplit("/", 1)[-1] for k in (i, j))
            rep.check(cs[i] != cs[j], "context", "shared-context/%s-%s" % (x, y), loc(load), "the plugins of `%s` and `%s` are evaluated in %s" % (x, y, "two contexts" if cs[i] != cs[j] else "the same context: their global variables and functions mix"))
        functions_(F, rep, env, plugins, parse, execute)


def functions_(F, rep, env, plugins, parse, execute):
    ri, si = param(parse, r"RawFunction"), param(execute, r"process::Scope\b")
    if ri is None or si is None:
        rep.ok("call", loc(execute), "parse or execute were not recognised; not decided")
        return
    decided = 0

    def built(fn, args):
        """The functions `parse` returns for a parser and arguments: [(sub, env)]"""
        raw = {("name",): ("c", "s:x"), **{("named_args",) + k: v for k, v in Lists.made([]).items()}}
        raw.update({("positional_args",) + k: v for k, v in Lists.made([arg(*x) for x in args]).items()})
        w = Bridge(F, {1: fn, ri: raw}, env, MODULES)
        if not interpret(F, rep, parse, w):
            return None
        out = []
        for o, e, lost in w.ends:
            if lost:
                return None
            out.append((o, held(e, (0, 0), ("Ok.0",)), keep(e)))
        return out

    def executed(fn, args, script=(), returns=UNDEF):
        """The ends of executing a function with arguments, or None."""
        bs = built(fn, args)
        if not bs or any(o != "Ok" for o, _, _ in bs):
            return None
        out = []
        for _, sub, e in bs:
            w = Bridge(F, {1: sub}, {**e, **scope_env()}, MODULES, script, returns)
            if not interpret(F, rep, execute, w):
                return None
            if not w.ends:
                return None
            out += w.ends
            if DBG:
                print("   unknown", w.unknown, {k for k in w.events if isinstance(k, tuple)})
        return out

    def calls(e):
        return [x for x in Steps.trace(e) if x[0] == "call"]

    where = loc(execute)
    # ---- which function is called, and where
    for mod, ctx, fns in plugins[:2]:
        for name, fn in zip(MODULES[mod]["functions"], fns):
            key = "%s.%s" % (MODULES[mod]["name"], name)
            for o, e, lost in sum([executed(fn, x) or [] for x in ([], [("Integer", 1)], [("String", "a"), ("Variable", "text")])], []):
                if lost or o != "Ok":
                    continue
                cs = calls(e)
                decided += 1
                rep.check([x[1] for x in cs] == ["%s/%s" % (mod, name)], "lookup", "wrong-function/" + key, where, "function `%s` of plugin `%s` calls %s" % (name, MODULES[mod]["name"], ", ".join(str(x[1]).replace("src:/p/", "") for x in cs) or "nothing"))
                if len(cs) == 1 and cs[0][2] is not None and ctx is not None:
                    rep.check(cs[0][2] == ctx, "lookup", "wrong-context/" + key, where, "function `%s` of plugin `%s` is called in %s" % (name, MODULES[mod]["name"], "its plugin's context" if cs[0][2] == ctx else "another context than its plugin's"))
    fn = plugins[0][2][0] if plugins[0][2] else {}
    # ---- the arguments
    for args in [[("String", "one"), ("Integer", 2), ("Variable", "text"), ("Integer", -3), ("Variable", "list")]] + [[("Variable", k)] for k, _ in VALUES] + [[("String", "5")], [("String", "")], [("Variable", "obj.f"), ("Variable", "obj.a"), ("Variable", "outer")], []]:
        want = [x if k == "String" else float(x) if k == "Integer" else lookup(x) for k, x in args]
        for o, e, lost in executed(fn, args) or [(None, None, True)]:
            if lost:
                continue
            if o == "Ok":
                cs = calls(e)
                try:
                    got = [Heap(e).data(i) for i in cs[0][3]] if len(cs) == 1 else None
                except Unknown:
                    continue
                decided += 1
                rep.check(got is not None and freeze(got) == freeze(want), "arguments", "argument/" + ",".join(k + (":" + str(x) if k == "Variable" else "") for k, x in args), where, "the arguments %s arrive as %s" % (show(want), show(got) if got is not None else "nothing: the function is not called"))
            elif not calls(e):
                decided += 1
                rep.bad("arguments", "refused/" + ",".join(k + (":" + str(x) if k == "Variable" else "") for k, x in args), where, "defined arguments %s are refused" % show(want))
    for args in ([("Variable", "missing")], [("String", "a"), ("Variable", "missing")], [("Variable", "missing.a")], [("Variable", "text"), ("Variable", "tex")]):
        for o, e, lost in executed(fn, args) or [(None, None, True)]:
            if not lost and o in ("Ok", "Err"):
                decided += 1
                rep.check(o == "Err", "undefined", "undefined-argument/" + ",".join(x for _, x in args), where, "an undefined variable as an argument %s" % ("is an error" if o == "Err" else "is passed on"))
    # ---- the result
    for x in (UNDEF, "result", "", "undefined", 4.0):
        for o, e, lost in executed(fn, [], (), x) or [(None, None, True)]:
            if lost or o != "Ok":
                continue
            outs = [text(e, ("&", (STACK, ("[%d]" % i, "output")), False)) for i in range(3)]
            want = OUT + ("" if x is UNDEF else x if isinstance(x, str) else "4")
            if None in outs or UNK_CH in "".join(outs):
                continue
            decided += 1
            rep.check(outs == ["other", "other", want], "result", "result/%s" % show(x), where, "a function returning %s inserts `%s`" % (show(x), outs[2][len(OUT):] if outs[2].startswith(OUT) else outs[2]))
    # ---- variables through the scope object
    for k, x in VALUES + [("undefined", UNDEF), ("holed", [1.0, UNDEF, 2.0]), ("partial", {"a": UNDEF, "b": 1.0})]:
        for o, e, lost in executed(fn, [], [("set", "fresh", x)]) or [(None, None, True)]:
            if lost or o != "Ok":
                continue
            vs = variables(e)
            if vs is None:
                continue
            decided += 1
            got = vs.get("fresh", UNDEF)
            if got is Unknown:
                continue
            if k in ("undefined", "holed", "partial"):
                rep.check(got is UNDEF or not data_for_undefined(got, x), "undefined", "set/" + k, where, "setting a variable to %s %s" % (show(x), "sets nothing" if got is UNDEF else "sets it to " + show(got)))
            else:
                rep.check(freeze(got) == freeze(x), "values", "set/" + k, where, "a variable set to %s is %s" % (show(x), show(got)))
    for k in [k for k, _ in VALUES] + ["missing", "outer", "obj.f"]:
        want = lookup(k)
        for o, e, lost in executed(fn, [], [("get", k, None)]) or [(None, None, True)]:
            got = [x[2] for x in Steps.trace(e) if x[0] == "got"] if e else []
            if lost or o != "Ok" or got in ([], ["?"]):
                continue
            decided += 1
            rep.check(got == [freeze(want)], "values" if want is not UNDEF else "undefined", "get/" + k, where, "reading a variable that is %s gives %s" % (show(want), "it" if got == [freeze(want)] else str(got[0])))
    rep.counts["cases decided"] = rep.counts.get("cases decided", 0) + decided
    if not decided:
        rep.ok("call", where, "executing a function is not determined; not decided")


def arg(kind, x):
    if kind == "Ident":
        return {(): ("v", "Ident"), ("Ident.0",): ("c", "s:" + x)}
    return {(): ("v", kind), (kind + ".0",): ("c", x if isinstance(x, int) else "s:" + x)}


def lookup(k):
    head, *rest = k.split(".")
    vs = {"outer": "o", **dict(VALUES)}
    if head not in vs:
        return UNDEF
    x = vs[head]
    for r in rest:
        x = x.get(r) if isinstance(x, dict) else None
    return x


def variables(e):
    n = e.get((STACK, ("[2]", "variables", "#")))
    if n is None:
        return None
    out = {}
    for i in range(n[1]):
        k = text(e, ("&", (STACK, ("[2]", "variables", "[%d]" % i, "0")), False))
        if k is None:
            return None
        try:
            out[k] = python(e, (STACK, ("[2]", "variables", "[%d]" % i, "1")))
        except Unknown:
            out[k] = Unknown
    return out


def data_for_undefined(got, x):
    """Whether something was put in the place of an undefined value."""
    if x is UNDEF:
        return True
    if isinstance(x, list):
        return isinstance(got, list) and len(got) >= len(x) or not isinstance(got, list)
    return not isinstance(got, dict) or any(v is UNDEF and k in got for k, v in x.items())


def show(x):
    if x is UNDEF:
        return "undefined"
    if x is None:
        return "null"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, float):
        return "%g" % x
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, list):
        return "[" + ", ".join(show(y) for y in x) + "]"
    return "{" + ", ".join("%s: %s" % (k, show(y)) for k, y in x.items()) + "}"
