"""A world in which the commands of the command-line crate are interpreted step by step.

Paths, names and the settings they come from are known text; every step that leaves the crate (reading a file, a step of
the core library, starting a process) is recorded in a trace and may succeed or fail.  The set of traces, with the outcome
of each, then says what runs when, on which paths, with which environment, and what happens after a failure.
"""
import posixpath
import re
from frames import Scoped, S
from world import LEN, UNK_CH, W, g, gs, resolve, text, under

ROOT = "/canon"


def static_values(F, krates=("stuart",)):
    """{(static id, suffix): value} for the constants of a crate that are arrays or texts."""
    out = {}
    for b in F.bodies.values():
        if b.krate not in krates or b.argc or "{" in b.path or len(b.blocks) != 1:
            continue
        vals = {}
        for s in b.blocks[0]["st"]:
            if s["k"] != "assign" or s["p"][1]:
                continue
            r = s["r"]

            def op(o):
                if o["k"] == "const":
                    return {(): ("c", "s:" + o["str"])} if "str" in o else {(): ("c", o["int"])} if "int" in o else {}
                return vals.get(o["p"][0], {})
            if r["k"] == "use":
                vals[s["p"][0]] = op(r["o"])
            elif r["k"] == "agg" and r["a"] in ("array", "tuple"):
                sub = {("[%d]" % i if r["a"] == "array" else str(i),) + k: v for i, o in enumerate(r["ops"]) for k, v in op(o).items()}
                if r["a"] == "array":
                    sub[LEN] = ("c", len(r["ops"]))
                vals[s["p"][0]] = sub
        for k, v in vals.get(0, {}).items():
            out[(("STATIC", b.id), k)] = v
    return out


def join(a, b):
    return b if b.startswith("/") else a.rstrip("/") + "/" + b if b else a + "/"


def enters(x, f=None):
    return x.krate == "stuart" or bool(re.match(r"stuart_core::Stuart::(new|with_\w+)$", x.path))


class Steps(Scoped):
    """The world of one command."""

    # functions of other crates, or of parts judged elsewhere, that are single steps here
    STEP = re.compile(r"^stuart_core::(?!Stuart::(new|with_\w+)$)|^stuart::(plugins::load|config::load)$|^humphrey")

    def __init__(self, F, args=None, listing=None, fields=None):
        super().__init__(F, [])
        self.given, self.listed, self.selfsub = args or {}, listing or {}, fields
        self.statics = static_values(F)

    def start(self, G, env):
        env.update(self.statics)
        env[(W, ("trace",))] = ("c", ())
        b = G.root_body
        for i in range(1, b.argc + 1):
            x = self.given.get(i)
            if x is None:
                continue
            ref = b.ty(i)["k"] in ("ref", "ptr")
            r = ("P", i) if ref else (0, i)
            if isinstance(x, str):
                env[((0, i), ())] = ("c", "s:" + x)
            else:
                for k, v in x.items():
                    env[(r, k)] = v

    # ---------------------------------------------------------------- the trace
    @staticmethod
    def trace(env):
        return g(env, "trace", ())

    def step(self, env, *ev, outcomes=None):
        """Record a step; outcomes: list of (sub, mark)."""
        tr = self.trace(env)
        return [(sub, {(W, ("trace",)): ("c", tr + ((ev + (mark,)),))}) for sub, mark in outcomes or (({(): ("v", "Ok")}, "ok"), ({(): ("v", "Err")}, "failed"))]

    def known(self, env, sub):
        return False

    def pairs(self, env, A, i):
        """The known (name, value) pairs of an iterable operand."""
        pl, sub = self.listing(env, A, i)
        its = self.items(sub) if sub is not None else None
        if its is None:
            pl, it = self.iterating(env, A, i)
            if it is None:
                return None
            its = self.rest(it)
        out = []
        for x in its:
            while () in x and x[()][0] == "&":
                x = self.deref(env, x)
            out.append(tuple(text(env, x.get((k,))) for k in "01"))
        return out

    def command(self, env, v):
        w, pl = resolve(env, v)
        if pl is not None and env.get((pl[0], pl[1] + ("prog",))):
            return pl
        return None

    def ran(self, env, pl, how):
        """The outcomes of running a command."""
        prog = text(env, ("&", (pl[0], pl[1] + ("prog",)), False))
        rest = env.get((pl[0], pl[1] + ("rest",)), ("c", ((), ())))[1]
        st = ("Ok.0", "status", "ok") if how == "output" else ("Ok.0", "ok")
        return self.step(env, "run", prog, rest[0], rest[1],
                         outcomes=[({(): ("v", "Err")}, "not started"), ({(): ("v", "Ok"), st: ("c", True)}, "ok"), ({(): ("v", "Ok"), st: ("c", False)}, "unsuccessful")])

    def model(self, G, n, path, m, trait, targs, A, v, frame, t, env):
        T = [text(env, x) for x in v]
        r = self.paths(path, m, A, v, T, env, frame, t)
        if r is not None:
            return r
        r = self.process(path, m, A, v, T, env, frame)
        if r is None:
            r = self.cells(path, m, A, v, env)
        if r is not None:
            return r
        if path in ("std::env::var", "std::env::var_os") and len(v) == 1:
            return [({(): ("v", "Ok" if m == "var" else "Some")}, {}), ({(): ("v", "Err" if m == "var" else "None")}, {})]
        if path in ("std::fs::read_dir", "std::path::Path::read_dir"):
            names = self.listed.get(T[0])
            if names is None:
                return self.step(env, "read", T[0], outcomes=[({(): ("v", "Ok")}, "ok"), ({(): ("v", "Err")}, "failed")])
            its = [{(): ("v", "Ok"), ("Ok.0", "entry"): ("c", "s:" + join(T[0], x))} for x in names]
            return self.step(env, "read", T[0], outcomes=[({(): ("v", "Ok"), **{("Ok.0",) + k: w for k, w in self.iterate(its).items()}}, "ok"), ({(): ("v", "Err")}, "failed")])
        if path.startswith("std::fs::DirEntry::"):
            w, pl = resolve(env, v[0])
            e = text(env, ("&", (pl[0], pl[1] + ("entry",)), False)) if pl is not None else text(env, A[0].get(("entry",)))
            if e is not None and m in ("path", "file_name"):
                return [(S(e if m == "path" else e.rsplit("/", 1)[-1]), {})]
            return None
        if path.startswith("std::fs::") and m in ("read_to_string", "read", "write", "copy", "rename", "create_dir", "create_dir_all", "remove_dir", "remove_dir_all", "remove_file"):
            return self.step(env, m, *T[:1 if m == "write" else 2])
        if path == "<alloc::vec::Vec as core::default::Default>::default":
            return [(self.made([]), {})]
        if m in ("sort", "sort_unstable") and len(v) == 1:
            pl, sub = self.listing(env, A)
            if sub is not None and pl is not None:
                its = self.items(sub)
                keys = [text(env, x.get(())) for x in its]
                if all(k is not None for k in keys):
                    return [({}, self.put(env, pl, self.made([x for _, x in sorted(zip(keys, its), key=lambda p: p[0])])))]
        if m == "contains" and len(v) == 2:
            pl, sub = self.listing(env, A)
            if sub is not None:
                l, y = [text(env, x.get(())) for x in self.items(sub)], T[1]
                if y is not None and all(x is not None for x in l):
                    return [({(): ("c", y in l)}, {})]
        b = self.F.bodies.get((t["f"].get("fn") or {}).get("resid") or (t["f"].get("fn") or {}).get("id") or "") if t["f"]["k"] == "const" else None
        p = b.path if b is not None else path
        if self.STEP.search(p):
            return self.stepped(G, n, p, A, v, T, frame, t, env)
        return super().model(G, n, path, m, trait, targs, A, v, frame, t, env)

    def stepped(self, G, n, p, A, v, T, frame, t, env):
        d = frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"] if not t["dest"][1] else ""
        ev = [p] + [x for x in T if x is not None]
        if re.match(r"(core::result::|std::result::)?Result<", d):
            return self.step(env, *ev)
        return None

    def paths(self, path, m, A, v, T, env, frame, t):
        a = T[0] if T else None
        if a is None or UNK_CH in a:
            if path == "std::env::current_dir":
                return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:/cwd")}, {}), ({(): ("v", "Err")}, {})]
            if path == "std::env::temp_dir":
                return [(S("/tmp"), {})]
            return None
        if m == "try_from" and "Path" in path + str(frame.body.types[frame.body.locals[t["dest"][0]]["ty"]]["s"]):
            return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:" + a)}, {})]
        if not path.startswith("std::path::") and m not in ("canonicalize", "absolute", "display"):
            return None
        if m in ("canonicalize", "absolute"):
            p = posixpath.normpath(a if a.startswith("/") else join(ROOT, a))
            return [({(): ("v", "Ok"), ("Ok.0",): ("c", "s:" + p)}, {}), ({(): ("v", "Err")}, {})]
        if m == "parent":
            if "/" not in a.strip("/"):
                return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + ("/" if a.startswith("/") else ""))} if a.strip("/") else {(): ("v", "None")}, {})]
            return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + a.rsplit("/", 1)[0])}, {})]
        if m == "join" and len(T) > 1 and T[1] is not None:
            return [(S(join(a, T[1])), {})]
        if m == "push" and len(T) > 1 and T[1] is not None:
            w, pl = resolve(env, v[0])
            return [({}, {pl: ("c", "s:" + join(a, T[1]))})] if pl is not None else None
        if m == "pop":
            w, pl = resolve(env, v[0])
            return [({(): ("c", True)}, {pl: ("c", "s:" + a.rsplit("/", 1)[0])})] if pl is not None else None
        if m in ("file_name", "to_str", "extension", "file_stem"):
            x = a.rsplit("/", 1)[-1]
            x = a if m == "to_str" else x if m == "file_name" else x.rsplit(".", 1)[1] if m == "extension" and "." in x[1:] else x.rsplit(".", 1)[0] if m == "file_stem" else None
            return [({(): ("v", "Some"), ("Some.0",): ("c", "s:" + x)} if x is not None else {(): ("v", "None")}, {})]
        if m in ("with_file_name", "with_extension") and T[1] is not None:
            x = a.rsplit("/", 1)[0]
            return [(S(join(x, T[1]) if m == "with_file_name" else a.rsplit(".", 1)[0] + "." + T[1]), {})]
        if m in ("display", "to_path_buf", "into_os_string", "as_os_str", "to_string_lossy", "as_path", "into_boxed_path", "into_path_buf", "as_mut_os_str"):
            return [(S(a), {})]
        if m in ("exists", "is_dir", "is_file") and a in self.listed:
            return [({(): ("c", m != "is_file")}, {})]
        if m in ("is_file", "is_dir", "exists") and a.rsplit("/", 1)[0] in self.listed and a.rsplit("/", 1)[1] in self.listed[a.rsplit("/", 1)[0]]:
            return [({(): ("c", m != "is_dir")}, {})]
        if m == "is_absolute" or m == "is_relative":
            return [({(): ("c", a.startswith("/") == (m == "is_absolute"))}, {})]
        return None

    def cells(self, path, m, A, v, env):
        """Wrappers that give access to one value, and replacing a value in place."""
        if re.match(r"(std::sync|alloc::sync|alloc::rc|core::cell|std::cell)(::\w+)*::(Mutex|RwLock|RefCell|Cell|Arc|Rc|OnceCell|OnceLock)::", path):
            if m == "new" and len(A) == 1:
                return [(A[0], {})]
            w, pl = resolve(env, v[0])
            if pl is not None and len(v) == 1:
                if m in ("lock", "read", "write", "try_borrow", "try_borrow_mut"):
                    return [({(): ("v", "Ok"), ("Ok.0",): ("&", pl, True)}, {})]
                if m in ("borrow", "borrow_mut", "get_mut", "as_ptr"):
                    return [({(): ("&", pl, True)}, {})]
                if m == "get" and path.split("::")[-2] == "Cell":
                    return [(dict(under(env, pl)), {})]
            if pl is not None and len(v) == 2 and m in ("set", "replace"):
                return [({} if m == "set" else dict(under(env, pl)), self.put(env, pl, A[1]))]
            if m == "take" and pl is not None:
                path = "core::mem::take"
            elif m == "into_inner" and len(v) == 1:
                return [(A[0], {})] if not path.split("::")[-2] in ("Mutex", "RwLock") else [({(): ("v", "Ok"), **{("Ok.0",) + k: x for k, x in A[0].items()}}, {})]
        if path in ("core::mem::take", "std::mem::take", "core::mem::replace", "std::mem::replace", "core::option::Option::take", "core::option::Option::replace"):
            w, pl = resolve(env, v[0])
            if pl is None:
                return None
            old = dict(under(env, pl))
            if m == "replace":
                return [(old, self.put(env, pl, A[1] if "option" not in path else {(): ("v", "Some"), **{("Some.0",) + k: x for k, x in A[1].items()}}))]
            if old.get(LEN):
                new = self.made([])
            elif old.get((), ("?",))[0] == "c":
                new = {(): ("c", "s:" if isinstance(old[()][1], str) else type(old[()][1])())}
            elif old.get(()) in (("v", "Some"), ("v", "None")):
                new = {(): ("v", "None")}
            else:
                new = {}
            return [(old, self.put(env, pl, new))]
        return None

    def codes(self, frame):
        """The exit codes a function distinguishes, and one more."""
        out = {1}
        for bl in list(frame.body.blocks) + [x for p in frame.body.promoted or () for x in p["blocks"]]:
            t = bl["t"]
            if t["k"] == "switch":
                out |= {x[0] for x in t["targets"] if isinstance(x[0], int)}
            for s in bl["st"]:
                if s["k"] == "assign":
                    r = s["r"]
                    for o in [r.get("a"), r.get("b"), r.get("o")] + list(r.get("ops") or ()):
                        if isinstance(o, dict) and o.get("k") == "const" and isinstance(o.get("int"), int):
                            out.add(o["int"])
        return sorted(x for x in out if 0 < x < 256)

    def process(self, path, m, A, v, T, env, frame):
        if path == "std::process::Command::new":
            if T[0] is not None:
                return [({("prog",): ("c", "s:" + T[0]), ("rest",): ("c", ((), ()))}, {})]
            return [({("prog",): ("c", "s:" + UNK_CH), ("rest",): ("c", ((), ()))}, {})]
        if path.startswith("std::process::Command::"):
            pl = self.command(env, v[0])
            if pl is None:
                return None
            args, vars_ = env.get((pl[0], pl[1] + ("rest",)), ("c", ((), ())))[1]
            if m == "arg":
                args += (T[1],)
            elif m == "args":
                _, sub = self.listing(env, A, 1)
                args += tuple(text(env, x.get(())) for x in self.items(sub)) if sub is not None else (None,)
            elif m == "env":
                vars_ = tuple(x for x in vars_ if x[0] != T[1]) + ((T[1], T[2]),)
            elif m == "env_remove":
                vars_ = tuple(x for x in vars_ if x[0] != T[1]) + ((T[1], ""),)
            elif m == "env_clear":
                vars_ = ()
            elif m == "envs":
                new = self.pairs(env, A, 1)
                vars_ = tuple(x for x in vars_ if new is not None and x[0] not in {k for k, _ in new}) + (tuple(new) if new is not None else ((None, None),))
            elif m in ("output", "status"):
                return self.ran(env, pl, m)
            elif m == "spawn":
                prog = text(env, ("&", (pl[0], pl[1] + ("prog",)), False))
                rest = (args, vars_)
                return self.step(env, "spawn", prog, rest[0], rest[1], outcomes=[({(): ("v", "Err")}, "not started"), ({(): ("v", "Ok"), ("Ok.0", "prog"): ("c", "s:" + (prog or UNK_CH)), ("Ok.0", "rest"): ("c", rest)}, "started")])
            elif m in ("stdin", "stdout", "stderr", "current_dir", "arg0", "uid", "gid"):
                pass
            else:
                return None
            return [({(): ("&", pl, True)}, {(pl[0], pl[1] + ("rest",)): ("c", (args, vars_))})]
        if path.startswith("std::process::Child::") and m in ("wait", "wait_with_output"):
            w, pl = resolve(env, v[0])
            if pl is not None and env.get((pl[0], pl[1] + ("prog",))):
                return self.ran(env, pl, "output" if m == "wait_with_output" else "status")
            if A[0].get(("prog",)):
                st = ("Ok.0", "status", "ok") if m == "wait_with_output" else ("Ok.0", "ok")
                rest = A[0].get(("rest",), ("c", ((), ())))[1]
                return self.step(env, "run", A[0][("prog",)][1][2:], rest[0], rest[1], outcomes=[({(): ("v", "Err")}, "not started"), ({(): ("v", "Ok"), st: ("c", True)}, "ok"), ({(): ("v", "Ok"), st: ("c", False)}, "unsuccessful")])
        if path.startswith("std::process::ExitStatus::"):
            w, pl = resolve(env, v[0])
            ok = env.get((pl[0], pl[1] + ("ok",))) if pl is not None else A[0].get(("ok",))
            if ok is not None:
                if m == "success":
                    return [({(): ok}, {})]
                if m == "code":
                    return [({(): ("v", "Some"), ("Some.0",): ("c", 0)}, {})] if ok[1] else [({(): ("v", "Some"), ("Some.0",): ("c", c)}, {}) for c in self.codes(frame)] + [({(): ("v", "None")}, {})]
        return None

    # ---------------------------------------------------------------- outcome
    def exit(self, G, n, env):
        v = env.get(((0, 0), ()))
        self.ends.append((v[1] if v and v[0] == "v" else None, env, bool(g(env, "lost"))))
