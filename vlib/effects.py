"""Effect and ownership analysis: which caller-owned, module-owned or captured
objects a function stores into, and which input/output it performs."""
import ast

from . import bta
from . import names as N
from .bta import St, Tup, Rec, Fn, Par, Multi, Ext, ModV, Cls, Obj, Mapped, Env

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
       "fill", "itemset", "resize", "put", "partition", "setflags", "__setitem__", "__delitem__", "__iadd__", "appendleft", "popleft",
       "difference_update", "intersection_update", "symmetric_difference_update", "setfield"}
VIEW_ATTR = {"T", "real", "imag", "flat", "base", "mT", "data"}
META = {"shape", "dtype", "ndim", "size", "nbytes", "itemsize", "nse", "__name__", "__class__", "__doc__"}
ALIAS_METH = {"reshape", "ravel", "squeeze", "view", "transpose", "swapaxes", "get", "values", "items", "diagonal", "__getitem__", "setdefault", "keys"}
NP_ALIAS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "ravel", "reshape", "squeeze", "atleast_1d", "atleast_2d", "atleast_3d", "transpose",
            "broadcast_to", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "require", "diagonal", "flip", "fliplr", "flipud", "real", "imag", "split",
            "array_split", "hsplit", "vsplit", "nditer"}
NP_MUT = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle"}
GLOBALCFG = ("jax.config.update", "numpy.seterr", "numpy.seterrcall", "numpy.random.seed", "random.seed", "os.chdir", "os.putenv", "os.unsetenv",
             "warnings.simplefilter", "warnings.filterwarnings", "sys.setrecursionlimit", "numpy.set_printoptions", "jax.numpy.set_printoptions",
             "locale.setlocale", "matplotlib.use", "matplotlib.rc", "pandas.set_option", "gc.disable", "gc.enable", "sys.settrace", "jax.clear_caches",
             "jax.clear_backends")
IO = ("builtins.print", "builtins.open", "builtins.input", "builtins.breakpoint", "jax.debug.print", "jax.debug.breakpoint", "jax.debug.callback",
      "jax.debug.visualize_array_sharding", "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed", "numpy.load", "numpy.loadtxt",
      "jax.numpy.save", "jax.numpy.savez", "jax.numpy.load", "os.system", "os.remove", "os.unlink", "os.mkdir", "os.makedirs", "os.rename", "time.sleep",
      "jax.experimental.io_callback", "jax.pure_callback", "builtins.exec", "builtins.eval", "pickle.dump", "pickle.load", "json.dump", "json.load")
IO_PREFIX = ("logging.", "matplotlib.", "subprocess.", "shutil.", "socket.", "urllib.", "requests.", "sys.stdout", "sys.stderr", "sys.stdin",
             "jax.experimental.host_callback", "pathlib.", "tempfile.", "pprint.p", "tqdm", "skimage.io", "absl.logging")


class Ref(St):
    """an object somebody else owns, or a part or view of one"""
    def __init__(self, owner, path, at=False):
        St.__init__(self)
        self.owner, self.path, self.at = owner, path, at
        self.kids = {}

    def key(self):
        return ("REF", self.owner, self.path)

    def kid(self, p, at=False):
        if len(self.path) > 60:
            return self
        k = (p, at)
        if k not in self.kids:
            self.kids[k] = Ref(self.owner, self.path + p, self.at or at)
        return self.kids[k]


class RMeth(St):
    def __init__(self, ref, name):
        St.__init__(self)
        self.ref, self.name = ref, name


class Eff:
    def __init__(self, kind, rel, fn, line, msg, chain):
        self.kind, self.rel, self.fn, self.line, self.msg, self.chain = kind, rel, fn, line, msg, chain


class Effects(bta.BTA):
    def __init__(self):
        bta.BTA.__init__(self)
        self.active = []
        self.found = []
        self.created = {}
        self.executed = set()
        self.stores = 0
        self.captured = []           # (function node, line, message)
        self.callsites = 0

    # ------------------------------------------------------------ reports
    def report(self, kind, node, msg):
        m, fn = self.stack[-1]
        if m.rel.startswith("/") and kind != "param":
            return          # resource caching and the like inside a dependency
        self.found.append(Eff(kind, m.rel, fn, getattr(node, "lineno", 0), msg, [s[1] for s in self.stack[1:]]))

    def store(self, o, node, how):
        """a store into the object o"""
        self.stores += 1
        if isinstance(o, Ref) and not o.at:
            self.report(o.owner[0], node, "%s %s %s" % (how, "of" if how.endswith(")") else "into", self.who(o)))
        elif isinstance(o, ModV):
            self.report("module", node, "%s: attribute of module %s" % (how, o.name))
        elif isinstance(o, Ext):
            self.report("module", node, "%s: attribute of %s" % (how, o.name))
        elif isinstance(o, Cls) and self.stack[-1][1] != "<module>":
            self.report("module", node, "%s: attribute of class %s" % (how, o.node.name))
        elif isinstance(o, Fn) and not self.local_fn(o) and self.stack[-1][1] != "<module>":
            self.report("module", node, "%s: attribute of function %s" % (how, getattr(o.node, "name", "lambda")))

    def local_fn(self, f):
        return f.env.parent is not None

    def who(self, r):
        k, n = r.owner
        return {"param": "the argument %s" % (r.path or n), "module": "the module-level object %s" % (r.path or n),
                "class": "the class-level object %s" % (r.path or n)}.get(k, n)

    # ---------------------------------------------------------- functions
    def note(self, f):
        self.created.setdefault(id(f.node), f)
        return f

    def e_Lambda(self, e, env):
        return self.note(Fn(e, env, env.mod))

    def stmt(self, st, env, rets):
        if isinstance(st, N.FUNCS):
            r = bta.BTA.stmt(self, st, env, rets)
            f = Fn(st, env, env.mod)
            self.note(f)
            return r
        if isinstance(st, ast.AugAssign):
            t = st.target
            if isinstance(t, ast.Name):
                o = self.eval(t, env)
                v = self.eval(st.value, env)
                if isinstance(o, Ref) and not o.at:
                    if o.owner[0] != "param" or self.arrayish(o, env, t.id):
                        self.store(o, st, "augmented assignment")
                    elif t.id in env.glob:
                        self.report("module", st, "global %s assigned" % t.id)
                    env.vars[t.id] = St()
                    return True
                if t.id in env.glob:
                    self.report("module", st, "global %s assigned" % t.id)
                self.free_store(t.id, env, st, "augmented assignment", rebinding=True)
                env.vars[t.id] = self.binop(o, v, st)
                return True
            o = self.eval(t.value, env)
            self.eval(st.value, env)
            if isinstance(t, ast.Subscript):
                self.eval(t.slice, env)
            self.target(t, o, env, "augmented assignment")
            return True
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.target(t, self.eval(t.value, env), env, "deletion")
            return True
        if isinstance(st, ast.Nonlocal):
            env.nonloc = getattr(env, "nonloc", set()) | set(st.names)
            return True
        return bta.BTA.stmt(self, st, env, rets)

    def arrayish(self, o, env, name):
        """the parameter is used as an array in the function at hand"""
        fn = env.fn
        if fn is None:
            return False
        root = o.owner[1]
        for x in ast.walk(fn):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in (name, root):
                return True
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in (name, root) and x.attr in ("shape", "ndim", "T", "size", "at", "append", "copy", "sum", "dot"):
                return True
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.MatMult) and any(isinstance(y, ast.Name) and y.id in (name, root) for y in (x.left, x.right)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)):
                f = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
                if f in ("norm", "arr_l2norm", "mean", "sum", "vdot", "dot", "len", "sort", "argsort", "std", "trans", "times") and any(isinstance(y, ast.Name) and y.id in (name, root) for y in x.args):
                    return True
        doc = ast.get_docstring(fn) or ""
        for l in doc.splitlines():
            l = l.strip()
            if l.startswith(name + " (") or l.startswith(name + " :") or l.startswith(name + ":"):
                h = l.split(":")[0] + l[:60]
                if "ndarray" in h or "list" in h or "dict" in h:
                    return True
        return False

    def target(self, t, o, env, how):
        b = t.value
        if isinstance(t, ast.Attribute) and isinstance(o, Obj):
            self.stores += 1
            return
        self.store(o, t, how)
        while isinstance(b, (ast.Subscript, ast.Attribute)):
            b = b.value
        if isinstance(b, ast.Name) and not isinstance(o, Ref):
            self.free_store(b.id, env, t, how)

    def free_store(self, name, env, node, how, rebinding=False):
        """store into an object bound by an enclosing function"""
        if name in env.vars or env.fn is None:
            return
        e = env.parent
        while e is not None and e.parent is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Obj):
                    return
                self.captured.append((env.fn, self.stack[-1], getattr(node, "lineno", 0), "%s to %s of the enclosing function" % (how, name)))
                return
            e = e.parent

    def assign(self, t, v, env):
        if isinstance(t, ast.Name) and t.id in env.glob:
            self.report("module", t, "global %s assigned" % t.id)
        if isinstance(t, ast.Name) and t.id in getattr(env, "nonloc", ()):
            e = env.parent
            while e is not None and t.id not in e.vars:
                e = e.parent
            self.captured.append((env.fn, self.stack[-1], t.lineno, "assignment to %s of the enclosing function" % t.id))
            if e is not None:
                e.vars[t.id] = v
            return
        if isinstance(t, (ast.Attribute, ast.Subscript)):
            o = self.eval(t.value, env)
            if isinstance(t, ast.Subscript):
                self.eval(t.slice, env)
            self.target(t, o, env, "assignment")
            if isinstance(o, Obj) and isinstance(t, ast.Attribute):
                o.attrs[t.attr] = v
            return
        bta.BTA.assign(self, t, v, env)

    # -------------------------------------------------------------- values
    def e_Name(self, e, env):
        n = env
        while n is not None and n.parent is not None:
            if e.id in n.vars:
                return n.vars[e.id]
            n = n.parent
        v = bta.BTA.e_Name(self, e, env)
        if isinstance(v, (St, Tup)) and not isinstance(v, (Ref, bta.Maybe)) and self.stack[-1][1] != "<module>":
            ent = env.mod.ns.get(e.id)
            x = ent[-1] if ent else None
            if x is not None and x[0] == "val" and mutable_init(x[1]):
                return self.modref(env.mod, e.id)
            if x is not None and x[0] == "from":
                mm = N.module(x[1])
                y = mm.ns.get(x[2]) if mm is not None else None
                if y and y[-1][0] == "val" and mutable_init(y[-1][1]):
                    return self.modref(mm, x[2])
        return v

    def modref(self, m, name):
        k = (m.name, name)
        if k not in self.modrefs:
            self.modrefs[k] = Ref(("module", name), name)
        return self.modrefs[k]

    modrefs = {}

    def getattr(self, o, a, e):
        if isinstance(o, ModV):
            m = N.module(o.name)
            y = m.ns.get(a) if m is not None else None
            if y and y[-1][0] == "val" and mutable_init(y[-1][1]):
                return self.modref(m, a)
        if isinstance(o, Obj):
            if a not in o.attrs:
                for st in o.node.body:
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                        if any(isinstance(t, ast.Name) and t.id == a for t in ts) and mutable_init(st.value):
                            return Ref(("class", o.node.name), "%s.%s" % (o.node.name, a))
        if isinstance(o, Ref):
            if a in META:
                return St()
            if a in MUT or a in ALIAS_METH or a in ("copy", "astype", "tolist", "item", "sum", "mean", "dot", "conj", "set"):
                return RMeth(o, a)
            return o.kid("." + a, at=a == "at")
        return bta.BTA.getattr(self, o, a, e)

    def subscript(self, o, e, env):
        if isinstance(o, Ref):
            self.eval(e.slice, env)
            return o.kid("[.]")
        return bta.BTA.subscript(self, o, e, env)

    def element(self, v):
        if isinstance(v, Ref):
            return v.kid("[.]")
        return bta.BTA.element(self, v)

    # --------------------------------------------------------------- calls
    def call(self, f, args, kw, node, env):
        self.callsites += 1
        if isinstance(f, RMeth):
            if f.name in MUT and not f.ref.at:
                if f.name == "sort" or f.name not in ("sort",):
                    self.store(f.ref, node, ".%s()" % f.name)
            if f.name in ALIAS_METH:
                return f.ref.kid("[.]")
            return St()
        if isinstance(f, Ref):
            if "out" in kw:
                self.store(kw["out"], node, "out=")
            return St()
        if isinstance(f, bta.Meth) or isinstance(f, bta.SMeth):
            self.local_method(f, node, env)
        if isinstance(f, Fn):
            self.executed.add(id(f.node))
            if f.statics is not None:
                return self.call_fn(Fn(f.node, f.env, f.mod, f.bound), args, kw, node)
        return bta.BTA.call(self, f, args, kw, node, env)

    def local_method(self, f, node, env):
        nm = f.name
        if nm in MUT and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            b = node.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                if isinstance(b, ast.Attribute) and b.attr == "at":
                    return
                b = b.value
            if isinstance(b, ast.Name):
                self.stores += 1
                self.free_store(b.id, env, node, ".%s()" % nm)

    def jitcall(self, f, args, kw, node, env):
        return self.call_fn(Fn(f.node, f.env, f.mod, f.bound), args, kw, node)

    def ext(self, name, args, kw, node, env):
        last = name.rsplit(".", 1)[-1]
        if "out" in kw and isinstance(kw["out"], Ref):
            self.store(kw["out"], node, "out=")
        if name.startswith("numpy."):
            if last in NP_MUT and args:
                self.store(args[0], node, name)
            if last == "at" and args and name.count(".") == 2:
                self.store(args[0], node, name)
            if last in NP_ALIAS and args and isinstance(args[0], Ref):
                return args[0].kid("")
            if last == "array" and args and isinstance(args[0], Ref) and isinstance(kw.get("copy"), St) and kw["copy"].const is False:
                return args[0].kid("")
        if name in GLOBALCFG:
            self.report("module", node, "%s changes process-wide settings" % name)
        if name == "jax.debug.callback" and args and isinstance(args[0], Ref):
            return St(None)          # the caller's own tracker
        if name == "jax.debug.callback" and args and isinstance(args[0], Fn):
            return self.call(args[0], args[1:], kw, node, env)
        if name in IO or name.startswith(IO_PREFIX):
            self.report("io", node, name.replace("builtins.", ""))
        if name in ("builtins.setattr", "builtins.delattr", "operator.setitem", "operator.iadd", "operator.delitem") and args:
            self.store(args[0], node, last)
        if name.startswith("random.") and last == "shuffle" and args:
            self.store(args[0], node, name)
        if name.startswith("heapq.") and args:
            self.store(args[0], node, name)
        for a in list(args) + list(kw.values()):
            if isinstance(a, (Fn, Par)):
                self.exec_fn(a, node, env) if name in ("builtins.map", "builtins.filter", "functools.reduce", "jax.tree_util.tree_map", "jax.tree_map") else None
        return bta.BTA.ext(self, name, args, kw, node, env)

    def exec_fn(self, f, node, env):
        pass

    def builtin(self, n, args, kw, node, env):
        if n in ("iter", "reversed", "zip", "enumerate", "next", "max", "min") and any(isinstance(a, Ref) for a in args):
            if n == "zip":
                return bta.Seq(Tup([self.element(a) for a in args]))
            if n == "enumerate":
                return bta.Seq(Tup([St(), self.element(args[0])]))
            r = [a for a in args if isinstance(a, Ref)]
            return r[0]
        if n in ("list", "tuple", "sorted", "set", "frozenset") and args and isinstance(args[0], Ref):
            return bta.Seq(args[0].kid("[.]"))
        if n == "dict" and args:
            return St()
        if n in ("vars", "globals") and not args:
            return Ref(("module", "globals()"), "globals()")
        return bta.BTA.builtin(self, n, args, kw, node, env)


def mutable_init(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if n in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "bytearray", "WeakKeyDictionary", "WeakValueDictionary", "SimpleNamespace"):
            return True
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy") and n in ("array", "zeros", "ones", "empty", "arange", "full", "eye"):
            return True
    return False


def closures(v, seen=None, out=None):
    """function values reachable from a result"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Fn):
        out.append(v)
        e = v.env
        while e is not None and e.parent is not None:
            for x in ast.walk(v.node):
                if isinstance(x, ast.Name) and x.id in e.vars:
                    closures(e.vars[x.id], seen, out)
            e = e.parent
    elif isinstance(v, (Tup, Multi)):
        for x in v.items:
            closures(x, seen, out)
    elif isinstance(v, Rec):
        for x in v.fields.values():
            closures(x, seen, out)
    elif isinstance(v, Par):
        for x in [v.f] + list(v.args) + list(v.kw.values()):
            closures(x, seen, out)
    elif isinstance(v, Mapped):
        closures(v.f, seen, out)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            closures(x, seen, out)
    return out
