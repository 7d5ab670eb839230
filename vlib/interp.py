"""Forward value-numbering analysis over the Python AST.

Every function body is interpreted over value Terms: joins become ``ite``
terms, helpers/closures/named tuples/jit/partial/vmap wrappers are followed,
and every loop is summarised by one generic iteration (head state = fresh
value numbers) stored as a LoopRec on which inductive facts are checked.
Nothing of the analysed program is executed."""
import ast
from . import loader, prims
from . import term as T
from . import shape as S
from .term import (Term, mk, num, sym, const, NONE, TRUE, FALSE, ZERO, ONE)
from .prims import PRIMS, Fail, tup


# ------------------------------------------------------------------- values
class PyTuple:
    def __init__(self, items, kind="tuple"):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return "PyTuple(%r)" % self.items


class PyDict:
    def __init__(self, items=None, open_=False):
        self.items = dict(items or {})
        self.open = open_       # may hold entries that are not known

    def merge(self, v):
        """entries of another mapping"""
        if isinstance(v, PyDict):
            self.items.update(v.items)
            self.open = self.open or v.open
        else:
            self.open = True
            for k in list(self.items):
                self.items[k] = mk("unknownentry", k)


class Scope:
    def __init__(self, parent=None, module=None, fname=""):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.fname = fname


class Func:
    def __init__(self, node, scope, module, qual, defaults, kwdefaults, is_lambda=False):
        self.node = node
        self.scope = scope
        self.module = module
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.is_lambda = is_lambda
        self.decos = []

    @property
    def name(self):
        return self.qual.split(".")[-1]

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def __repr__(self):
        return "<Func %s:%s>" % (self.module.name, self.qual)


class Cls:
    def __init__(self, name, node, module, kind, scope):
        self.name = name
        self.node = node
        self.module = module
        self.kind = kind
        self.fields = []          # (name, default value or MISSING)
        self.attrs = {}
        self.bases = []
        self.scope = scope

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return "<Cls %s>" % self.name


class NT:
    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join("%s=%r" % kv for kv in self.fields.items()))


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Prop:
    def __init__(self, func):
        self.func = func


class Static:
    def __init__(self, func):
        self.func = func


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Jit:
    def __init__(self, func, kwargs, node=None):
        self.func, self.kwargs, self.node = func, kwargs, node


class Vmap:
    def __init__(self, func, in_axes, out_axes):
        self.func, self.in_axes, self.out_axes = func, in_axes, out_axes


class Grad:
    def __init__(self, func, value=False):
        self.func, self.value = func, value


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<Ext %s>" % self.name


class Mod:
    def __init__(self, module):
        self.module = module


class IteVal:
    """conditional non-term value (functions, operators, None ...)"""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class SuperMarker:
    pass


MISSING = object()


class LoopRec:
    def __init__(self, kind, func, lineno):
        self.kind = kind
        self.func = func
        self.lineno = lineno
        self.init = self.head = self.body = self.cond = None
        self.ev_body = []
        self.ev_cond = []
        self.pc = ()
        self.outer = ()
        self.extra = {}
        self.inner = []

    def __repr__(self):
        return "<Loop %s %s:%s>" % (self.kind, self.func, self.lineno)


class Event:
    __slots__ = ("kind", "data", "pc", "where", "loops")

    def __init__(self, kind, data, pc, where, loops):
        self.kind, self.data, self.pc, self.where, self.loops = kind, data, pc, where, loops


class Tree:
    pass


# control-flow leaves
FALL = ("fall",)
RAISE = ("raise",)
BREAK = ("break",)
CONT = ("cont",)


class Undecided(Exception):
    """the trip count of a loop is not known"""


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.scope = Scope(None, self, "<module>")
        self.done = False

    @property
    def rel(self):
        return loader.relpath(self.path)


EXT_ALIASES = [
    ("jax.numpy.linalg", "linalg"), ("numpy.linalg", "linalg"), ("jax.scipy.linalg", "linalg"),
    ("scipy.linalg", "linalg"), ("jax.numpy.fft", "fft"), ("numpy.fft", "fft"),
    ("np.fft", "fft"), ("np.linalg", "linalg"),
    ("jax.numpy", "np"), ("numpy", "np"), ("jax.lax", "lax"), ("jax.random", "random"),
]


def ext_name(n):
    for a, b in EXT_ALIASES:
        if n == a:
            return b
        if n.startswith(a + "."):
            return b + n[len(a):]
    return n


IDENTITY_DECOS = {"jax.experimental.sparse.sparsify", "functools.wraps", "functools.lru_cache"}


_bodies = {}


def loop_body(st):
    """body with `if c: ...; continue` turned into an else branch"""
    r = _bodies.get(id(st))
    if r is None:
        r = _bodies[id(st)] = (st, _decontinue(list(st.body)))
    return r[1]


def _decontinue(body):
    for i, st in enumerate(body):
        if isinstance(st, ast.If):
            a = st.body and isinstance(st.body[-1], ast.Continue)
            b = st.orelse and isinstance(st.orelse[-1], ast.Continue)
            if a or b:
                rest = body[i + 1:]
                x = list(st.body[:-1]) if a else list(st.body) + rest
                y = list(st.orelse[:-1]) if b else list(st.orelse) + rest
                n = ast.If(test=st.test, body=_decontinue(x) or [ast.copy_location(ast.Pass(), st)], orelse=_decontinue(y))
                return body[:i] + [ast.copy_location(n, st)]
    return body


import os as _os
COVER = set() if _os.environ.get("VP_COVER") else None     # development aid: functions interpreted
if COVER is not None:
    import atexit as _atexit
    _atexit.register(lambda: open(_os.environ["VP_COVER"], "a").write("".join("%s %s\n" % q for q in COVER)))


class Interp:
    MAXDEPTH = 60

    def __init__(self):
        self.modules = {}
        self.events = []
        self.loops = []
        self.notes = []
        self.pc = []
        self.depth = 0
        self.loopstack = []
        self.dry = 0
        self.fnstack = []
        self.fresh_n = 0
        self.suppress = 0
        self.maybe_none = set()
        self.opaque_funcs = {}      # qualname -> handler(interp, func, args, kwargs)
        self.hooks = {}             # hooks on names: handler(interp, args, kwargs)
        self.budget = 400000
        self.asserts = []
        self.constructed = []       # operators built

    # ------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        f = loader.find_module(name)
        if f is None:
            return None
        path, is_pkg = f
        m = Module(name, path, is_pkg)
        self.modules[name] = m
        m.scope.vars["__name__"] = const(name)
        if path:
            tree = loader.parse(path)
            saved = (self.pc, self.loopstack, self.fnstack)
            self.pc, self.loopstack, self.fnstack = [], [], [(m, "<module>")]
            self.suppress += 1
            try:
                self.exec_block(tree.body, m.scope)
            finally:
                self.suppress -= 1
                self.pc, self.loopstack, self.fnstack = saved
        m.done = True
        return m

    def mod_attr(self, m, name):
        if name in m.scope.vars:
            return m.scope.vars[name]
        sub = self.load(m.name + "." + name)
        if sub is not None:
            return Mod(sub)
        return None

    def import_value(self, dotted):
        """value for a dotted module path"""
        if dotted == "cr" or dotted.startswith("cr."):
            m = self.load(dotted)
            if m is not None:
                return Mod(m)
            return Ext(dotted)
        return Ext(ext_name(dotted))

    def get(self, modname, name):
        m = self.load(modname)
        if m is None:
            return None
        return self.mod_attr(m, name)

    def spec(self, text, name):
        """value of a function defined by specification text (same primitives)"""
        m = Module("spec", None, False)
        m.scope.vars["__name__"] = const("spec")
        import ast as _ast
        self.suppress += 1
        saved = (self.pc, self.loopstack, self.fnstack)
        self.pc, self.loopstack, self.fnstack = [], [], [(m, "<spec>")]
        try:
            self.exec_block(_ast.parse("import jax\nimport jax.numpy as jnp\nfrom jax import lax\nimport numpy as np\n" + text).body, m.scope)
        finally:
            self.suppress -= 1
            self.pc, self.loopstack, self.fnstack = saved
        return m.scope.vars[name]

    # ---------------------------------------------------------------- utils
    def note(self, msg):
        self.notes.append(msg)

    def where(self, node=None):
        m, q = self.fnstack[-1] if self.fnstack else (None, "?")
        return (m.rel if m else "?", q, getattr(node, "lineno", 0))

    def event(self, kind, data, node=None):
        if self.suppress:
            return
        e = Event(kind, data, tuple(self.pc), self.where(node), tuple(self.loopstack))
        self.events.append(e)

    def fresh(self, label, like=None):
        self.fresh_n += 1
        s = sym("%s" % label)
        T.CTX.opaque.add(s)
        if like is not None and isinstance(like, Term):
            sh = S.shape_of(like)
            if sh == () or T.is_scalar(like):
                T.CTX.scalars.add(s)
                if T.nonneg(like) and False:
                    T.CTX.nonneg.add(s)
            elif sh is not None:
                T.CTX.shapes[s] = sh
        return s

    def fresh_like(self, v, label):
        if isinstance(v, Term):
            if v.op == "tuple":
                return tup([self.fresh_like(x, "%s.%d" % (label, i)) for i, x in enumerate(v.args[0])])
            return self.fresh(label, v)
        if isinstance(v, PyTuple):
            return PyTuple([self.fresh_like(x, "%s.%d" % (label, i)) for i, x in enumerate(v.items)], v.kind)
        if isinstance(v, NT):
            return NT(v.cls, {k: self.fresh_like(x, "%s.%s" % (label, k)) for k, x in v.fields.items()})
        if isinstance(v, PyDict):
            return PyDict({k: self.fresh_like(x, "%s[%s]" % (label, k)) for k, x in v.items.items()})
        if isinstance(v, IteVal):
            return self.fresh_like(v.a, label) if not self.is_none(v.a) else self.fresh_like(v.b, label)
        return v

    def is_none(self, v):
        return v is NONE

    # ------------------------------------------------------------- to_term
    def to_term(self, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, PyTuple):
            return tup([self.to_term(x) for x in v.items])
        if isinstance(v, NT):
            return mk("nt", v.cls.name, tuple((k, self.to_term(x)) for k, x in v.fields.items()))
        if isinstance(v, PyDict):
            return mk("dict", tuple((k if isinstance(k, Term) else const(k), self.to_term(x)) for k, x in v.items.items()))
        if isinstance(v, Func):
            return self.lam_term(v)
        if isinstance(v, (Jit,)):
            return self.to_term(v.func)
        if isinstance(v, Partial):
            return mk("partial", self.to_term(v.func), tuple(self.to_term(x) for x in v.args),
                      tuple((k, self.to_term(x)) for k, x in sorted(v.kwargs.items())))
        if isinstance(v, Bound):
            return mk("bound", self.to_term(v.func) if not isinstance(v.func, Func) else mk("fn", v.func.module.name, v.func.qual),
                      self.to_term(v.self_))
        if isinstance(v, Vmap):
            return mk("vmapf", self.to_term(v.func), self.to_term(v.in_axes), self.to_term(v.out_axes))
        if isinstance(v, Grad):
            return mk("gradf", self.to_term(v.func))
        if isinstance(v, Ext):
            return mk("ext", v.name)
        if isinstance(v, Mod):
            return mk("mod", v.module.name)
        if isinstance(v, Cls):
            return mk("cls", v.name)
        if isinstance(v, IteVal):
            return mk("ite", v.c, self.to_term(v.a), self.to_term(v.b))
        if isinstance(v, Obj):
            return mk("obj", v.cls.name)
        if isinstance(v, (Prop, Static)):
            return self.to_term(v.func)
        return mk("unk", repr(type(v)))

    def lam_term(self, f):
        if self.depth > 25:
            return mk("fn", f.module.name, f.qual)
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            return mk("fn", f.module.name, f.qual)
        self.suppress += 1
        nl = len(self.loops)
        try:
            bvs = [sym("λ%d_%d" % (self.depth, i)) for i in range(len(ps))]
            r = self.call(f, bvs, {}, None)
            return mk("lam", tuple(bvs), self.to_term(r))
        except RecursionError:
            raise
        except Exception:
            return mk("fn", f.module.name, f.qual)
        finally:
            del self.loops[nl:]
            self.suppress -= 1

    # --------------------------------------------------------------- merge
    def merge(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Term) and isinstance(b, Term):
            return T.ite(c, a, b)
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
            return PyTuple([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
            return NT(a.cls, {k: self.merge(c, a.fields[k], b.fields[k]) for k in a.fields})
        if a is MISSING or b is MISSING:
            return b if a is MISSING else a
        if isinstance(a, PyTuple) and isinstance(b, Term) and b.op == "tuple" or \
           isinstance(b, PyTuple) and isinstance(a, Term) and a.op == "tuple":
            return T.ite(c, self.to_term(a), self.to_term(b))
        return IteVal(c, a, b)

    # --------------------------------------------------------- statements
    def exec_block(self, stmts, scope):
        """returns a control tree: leaf FALL/RAISE/BREAK/CONT/('ret',v) or
        ('split', c, t1, t2).  scope.vars is updated for the falling path."""
        tree = FALL
        for i, st in enumerate(stmts):
            r = self.exec_stmt(st, scope)
            if r is FALL:
                continue
            if not self._falls(r):
                return r
            # partially falling: run the rest for the falling part
            cond = self._fall_cond(r)
            self.pc.append(cond)
            try:
                rest = self.exec_block(stmts[i + 1:], scope)
            finally:
                self.pc.pop()
            return self._graft(r, rest)
        return tree

    def _falls(self, t):
        if t is FALL:
            return True
        if t[0] == "split":
            return self._falls(t[2]) or self._falls(t[3])
        return False

    def _fall_cond(self, t):
        if t is FALL:
            return TRUE
        if t[0] == "split":
            return T.or_(T.and_(t[1], self._fall_cond(t[2])), T.and_(T.not_(t[1]), self._fall_cond(t[3])))
        return FALSE

    def _graft(self, t, rest):
        if t is FALL:
            return rest
        if t[0] == "split":
            return ("split", t[1], self._graft(t[2], rest), self._graft(t[3], rest))
        return t

    def collapse(self, t):
        """tree -> return value (MISSING when every path raises)"""
        if t is FALL:
            return NONE
        if t is RAISE:
            return MISSING
        if t in (BREAK, CONT):
            return NONE
        if t[0] == "ret":
            return t[1]
        a, b = self.collapse(t[2]), self.collapse(t[3])
        return self.merge(t[1], a, b)

    def exec_stmt(self, st, scope):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError("analysis budget exhausted")
        k = type(st).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note("unsupported statement %s at %s" % (k, self.where(st)))
            return FALL
        return m(st, scope)

    def s_Expr(self, st, scope):
        v = st.value
        if isinstance(v, ast.Constant):
            return FALL
        # list.append(x) on a local name: rebinding
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
            nm = v.func.value.id
            cur = self.lookup(nm, scope, quiet=True)
            if isinstance(cur, PyTuple) and cur.kind == "list" and v.func.attr in ("append", "extend") and len(v.args) == 1:
                x = self.eval(v.args[0], scope)
                if v.func.attr == "append":
                    new = PyTuple(cur.items + [x], "list")
                elif isinstance(x, PyTuple):
                    new = PyTuple(cur.items + x.items, "list")
                else:
                    new = self.fresh("list~%s" % nm)
                self.set_existing(nm, new, scope)
                return FALL
        # self.items.append(x) on an attribute of an object
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Attribute) \
                and v.func.attr in ("append", "extend") and len(v.args) == 1 and not v.keywords:
            o = self.eval(v.func.value.value, scope)
            nm = v.func.value.attr
            cur = o.attrs.get(nm) if isinstance(o, Obj) else None
            if isinstance(cur, PyTuple) and cur.kind == "list":
                x = self.eval(v.args[0], scope)
                if v.func.attr == "append":
                    o.attrs[nm] = PyTuple(cur.items + [x], "list")
                elif isinstance(x, PyTuple):
                    o.attrs[nm] = PyTuple(cur.items + x.items, "list")
                else:
                    o.attrs[nm] = self.fresh("list~%s" % nm)
                return FALL
        self.eval(v, scope)
        return FALL

    def set_existing(self, nm, v, scope):
        s = scope
        while s is not None:
            if nm in s.vars:
                s.vars[nm] = v
                return
            s = s.parent
        scope.vars[nm] = v

    def s_Pass(self, st, scope):
        return FALL

    s_Global = s_Nonlocal = s_Pass

    def s_Return(self, st, scope):
        v = NONE if st.value is None else self.eval(st.value, scope)
        return ("ret", v)

    def s_Raise(self, st, scope):
        return RAISE

    def s_Break(self, st, scope):
        return BREAK

    def s_Continue(self, st, scope):
        return CONT

    def s_Assert(self, st, scope):
        c = self.truth(self.eval(st.test, scope))
        self.asserts.append((c, tuple(self.pc), self.where(st)))
        return FALL

    def s_Delete(self, st, scope):
        for t in st.targets:
            if isinstance(t, ast.Name):
                scope.vars.pop(t.id, None)
        return FALL

    def s_Assign(self, st, scope):
        v = self.eval(st.value, scope)
        for t in st.targets:
            self.assign(t, v, scope)
        return FALL

    def s_AnnAssign(self, st, scope):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, scope), scope)
        return FALL

    def s_AugAssign(self, st, scope):
        cur = self.eval(_load(st.target), scope)
        v = self.binop(type(st.op).__name__, cur, self.eval(st.value, scope), st)
        self.assign(st.target, v, scope)
        return FALL

    def assign(self, t, v, scope):
        if isinstance(t, ast.Name):
            scope.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.seq_items(v)
                i = star[0]
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.fresh("star"), scope)
                    return
                tail = n - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, scope)
                self.assign(t.elts[i].value, PyTuple(items[i:len(items) - tail], "list"), scope)
                for e, x in zip(t.elts[i + 1:], items[len(items) - tail:]):
                    self.assign(e, x, scope)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x, scope)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, scope)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            self.event("setattr", (o, t.attr, v), t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, scope)
            i = self.index_value(t.slice, scope)
            if isinstance(o, PyDict) and isinstance(i, Term):
                o.items[i] = v
            elif isinstance(o, PyTuple) and isinstance(i, Term) and T.is_num(i) and isinstance(t.value, ast.Name):
                k = int(i.args[0])
                if -len(o.items) <= k < len(o.items):
                    items = list(o.items)
                    items[k] = v
                    self.set_existing(t.value.id, PyTuple(items, o.kind), scope)
            elif isinstance(t.value, ast.Name) and isinstance(o, Term):
                self.set_existing(t.value.id, mk("at_set", o, self.to_term(i), self.to_term(v)), scope)
            self.event("setitem", (o, i, v), t)

    def unpack(self, v, n):
        if isinstance(v, PyTuple):
            if len(v.items) == n:
                return v.items
            self.note("unpack arity")
            return (v.items + [self.fresh("unpack")] * n)[:n]
        if isinstance(v, NT):
            it = list(v.fields.values())
            if len(it) == n:
                return it
        if isinstance(v, IteVal):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        t = self.to_term(v)
        if t.op == "tuple" and len(t.args[0]) == n:
            return list(t.args[0])
        if t.op == "shape":
            return [prims.dim(t.args[0], i) for i in range(n)]
        if t.op == "ite":
            a, b = self.unpack(t.args[1], n), self.unpack(t.args[2], n)
            return [self.merge(t.args[0], x, y) for x, y in zip(a, b)]
        return [prims.index(t, num(i)) for i in range(n)]

    def seq_items(self, v):
        if isinstance(v, PyTuple):
            return v.items
        if isinstance(v, Term) and v.op == "tuple":
            return list(v.args[0])
        if isinstance(v, NT):
            return list(v.fields.values())
        if isinstance(v, Term) and v.op == "shape":
            s = S.shape_of(v.args[0])
            if s is not None:
                return list(s)
        if isinstance(v, Term) and v.op == "arange" and all(T.is_num(x) for x in v.args):
            r = range(*[int(x.args[0]) for x in v.args])
            if len(r) <= 24:
                return [num(i) for i in r]
        if isinstance(v, Term) and v.op == "array" and v.args[0].op == "tuple":
            return list(v.args[0].args[0])
        return None

    def s_FunctionDef(self, st, scope):
        f = self.make_func(st, scope)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, scope)
            v = self.decorate(dv, v, d)
        scope.vars[st.name] = v
        return FALL

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, scope):
        a = node.args
        defaults = [self.eval(d, scope) for d in a.defaults]
        kwd = {p.arg: (self.eval(d, scope) if d is not None else MISSING) for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        nm = getattr(node, "name", "<lambda>")
        qual = nm if scope.fname in ("<module>", "") else scope.fname + "." + nm
        return Func(node, scope, scope.module, qual, defaults, kwd, isinstance(node, ast.Lambda))

    def decorate(self, d, f, node):
        if isinstance(d, Ext):
            if d.name in ("builtins.property",):
                return Prop(f)
            if d.name in ("builtins.staticmethod", "builtins.classmethod"):
                return Static(f)
            if d.name in IDENTITY_DECOS:
                return f
        return self.call(d, [f], {}, node)

    def s_ClassDef(self, st, scope):
        bases = [self.eval(b, scope) for b in st.bases]
        kind = "class"
        for b in bases:
            if isinstance(b, Ext) and b.name in ("typing.NamedTuple", "collections.namedtuple"):
                kind = "namedtuple"
        for d in st.decorator_list:
            dv = self.eval(d, scope)
            if isinstance(dv, Ext) and "dataclass" in dv.name:
                kind = "dataclass"
            elif isinstance(dv, Partial) or isinstance(dv, Term) and "dataclass" in dv.key:
                kind = "dataclass"
        c = Cls(st.name, st, scope.module, kind, scope)
        c.bases = bases
        cs = Scope(scope, scope.module, st.name)
        for b in st.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and kind in ("namedtuple", "dataclass"):
                c.fields.append((b.target.id, MISSING if b.value is None else self.eval(b.value, cs)))
                if b.value is not None:
                    cs.vars[b.target.id] = c.fields[-1][1]
            else:
                self.exec_stmt(b, cs)
        c.attrs = cs.vars
        scope.vars[st.name] = c
        return FALL

    def s_If(self, st, scope):
        c = self.truth(self.eval(st.test, scope))
        if c is TRUE:
            return self.exec_block(st.body, scope)
        if c is FALSE:
            return self.exec_block(st.orelse, scope)
        snap = dict(scope.vars)
        self.pc.append(c)
        ta = self.exec_block(st.body, scope)
        self.pc.pop()
        va = scope.vars
        scope.vars = dict(snap)
        self.pc.append(T.not_(c))
        tb = self.exec_block(st.orelse, scope)
        self.pc.pop()
        vb = scope.vars
        fa, fb = self._falls(ta), self._falls(tb)
        if fa and fb:
            out = {}
            for n in set(va) | set(vb):
                x, y = va.get(n, MISSING), vb.get(n, MISSING)
                out[n] = self.merge(c, x, y)
            scope.vars = out
        elif fa:
            scope.vars = va
        else:
            scope.vars = vb
        if ta is FALL and tb is FALL:
            return FALL
        return ("split", c, ta, tb)

    def s_With(self, st, scope):
        for it in st.items:
            v = self.eval(it.context_expr, scope)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, scope)
        return self.exec_block(st.body, scope)

    def s_Try(self, st, scope):
        t = self.exec_block(st.body, scope)
        if st.finalbody:
            self.exec_block(st.finalbody, scope)
        return t

    def s_Import(self, st, scope):
        for al in st.names:
            if al.asname:
                scope.vars[al.asname] = self.import_value(al.name)
            else:
                top = al.name.split(".")[0]
                self.import_value(al.name)
                scope.vars[top] = self.import_value(top)
        return FALL

    def s_ImportFrom(self, st, scope):
        mod = scope.module
        base = st.module or ""
        if st.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        src = self.import_value(base)
        for al in st.names:
            if al.name == "*":
                if isinstance(src, Mod):
                    for k, v in list(src.module.scope.vars.items()):
                        if not k.startswith("_"):
                            scope.vars[k] = v
                continue
            if isinstance(src, Mod):
                v = self.mod_attr(src.module, al.name)
                if v is None:
                    self.event("badimport", (base, al.name), st)
                    self.notes.append("unresolved import %s.%s" % (base, al.name))
                    v = mk("unresolved", base, al.name)
            else:
                v = self.ext_attr(src, al.name)
            scope.vars[al.asname or al.name] = v
        return FALL

    def ext_attr(self, e, name):
        n = ext_name(e.name + "." + name)
        if n in ("np.pi", "math.pi"):
            return sym("pi")
        if n in ("np.inf", "math.inf"):
            return T.INF
        if n in ("np.newaxis",):
            return NONE
        return Ext(n)

    # ---- loops
    def assigned_names(self, body):
        out = set()
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") \
                        and isinstance(n.func.value, ast.Name):
                    out.add(n.func.value.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    out.add(n.value.id)
        return out

    def _unrolled(self, st, scope, k, before):
        """the remaining rounds of a loop whose trip count is known"""
        body = loop_body(st)
        while True:
            if not before(k):
                return self.exec_block(st.orelse, scope) if st.orelse else FALL
            t = self.exec_block(body, scope)
            k += 1
            if t is BREAK:
                return FALL
            if t is FALL or t is CONT:
                continue
            if not self._falls(t):
                if _has_leaf(t, BREAK) or _has_leaf(t, CONT):
                    raise AnalysisError("conditional break in an unrolled loop")
                return t
            if _has_leaf(t, BREAK) or _has_leaf(t, CONT):
                raise AnalysisError("conditional break in an unrolled loop")
            self.pc.append(self._fall_cond(t))
            try:
                rest = self._unrolled(st, scope, k, before)
            finally:
                self.pc.pop()
            return self._graft(t, rest)

    def s_While(self, st, scope):
        # statically known trip count: every test is decided
        if not isinstance(st.test, ast.Constant):
            keep = dict(scope.vars), len(self.loops), list(self.pc), list(self.notes), list(self.events)
            def before(k):
                c = self.truth(self.eval(st.test, scope))
                if c is FALSE:
                    return False
                if c is not TRUE or k > 32:
                    raise Undecided()
                return True
            try:
                return self._unrolled(st, scope, 0, before)
            except Undecided:
                pass
            scope.vars, self.pc = keep[0], keep[2]
            del self.loops[keep[1]:]
            self.notes[:] = keep[3]
            self.events[:] = keep[4]
        rec = LoopRec("while", self.where(st)[1], st.lineno)
        rec.extra["file"] = self.where(st)[0]
        names = sorted(n for n in self.assigned_names(st.body) if n in scope.vars)
        return self._loop(rec, st, scope, names, None)

    def _loop(self, rec, st, scope, names, pre):
        rec.pc = tuple(self.pc)
        rec.outer = tuple(self.loopstack)
        rec.init = {n: scope.vars[n] for n in names}
        lab = "L%d" % len(self.loops)
        self.loops.append(rec)
        rec.label = lab
        head = {n: self.fresh_like(rec.init[n], "%s.%s" % (lab, n)) for n in names}
        rec.head = head
        self._stable_shapes(rec, st, scope, names, head, pre)
        scope.vars.update(head)
        if pre is not None:
            pre()
            rec.cond = rec.extra.get("cond", mk("more", lab))
        else:
            self.loopstack.append(rec)
            rec.cond = self.truth(self.eval(st.test, scope))
            self.loopstack.pop()
        snap = dict(scope.vars)
        self.loopstack.append(rec)
        tree = self.exec_block(loop_body(st), scope)
        self.loopstack.pop()
        rec.tree = tree
        end = dict(scope.vars)
        rec.body = {n: end.get(n, MISSING) for n in names}
        # exit state: the head values (loop condition false at the head)
        out = dict(snap)
        for n in self.assigned_names(st.body):
            if n not in names and n in end:
                out[n] = self.fresh_like(end[n], "%s.%s" % (lab, n))
        for n in names:
            out[n] = head[n]
        if rec.kind == "for" and "index" in rec.extra:
            k = rec.extra["index"]
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name) and isinstance(out.get(n.id), Term):
                    out[n.id] = T.subst(out[n.id], {k: T.sub(k, ONE)})
        scope.vars = out
        if _has_leaf(tree, BREAK) or _has_ret(tree):
            # values at a break may differ from the head values
            for n in self.assigned_names(st.body):
                if n in out:
                    out[n] = self.fresh_like(out[n], "%s.exit.%s" % (lab, n))
            if _has_ret(tree):
                v = self.collapse_ret(tree)
                return ("split", mk("retcond", lab), ("ret", v), FALL)
        return FALL

    def _stable_shapes(self, rec, st, scope, names, head, pre):
        """drop the shape taken from the initial value from heads whose shape
        changes in the body (arrays that grow)"""
        if not any(isinstance(h, Term) and S.shape_of(h) for h in _flat(head)) or self.dry > 2:
            return
        saved, nl, pc, ls = dict(scope.vars), len(self.loops), list(self.pc), list(self.loopstack)
        self.suppress += 1
        self.dry += 1
        try:
            for _ in range(3):
                scope.vars = dict(saved)
                scope.vars.update(head)
                if pre is not None:
                    pre()
                tree = self.exec_block(loop_body(st), scope)
                bad = False
                for h, b in zip(_flat(head), _flat({n: scope.vars.get(n, MISSING) for n in names})):
                    if isinstance(h, Term) and h in T.CTX.scalars and isinstance(b, Term) and not T.is_scalar(b) \
                            and S.shape_of(b) != () and b.op not in ("cmp", "and", "or", "not", "const"):
                        T.CTX.scalars.discard(h)
                        bad = True
                        continue
                    if isinstance(h, Term) and h in T.CTX.shapes:
                        sb = S.shape_of(b) if isinstance(b, Term) else None
                        if sb != T.CTX.shapes[h]:
                            if sb is not None and len(sb) == len(T.CTX.shapes[h]):
                                k = [x if x is y else sym("%s#%d" % (h.args[0], i)) for i, (x, y) in enumerate(zip(T.CTX.shapes[h], sb))]
                                T.CTX.scalars.update(x for x, y in zip(k, sb) if x is not y)
                                T.CTX.opaque.update(x for x, y in zip(k, sb) if x is not y)
                                T.CTX.nonneg.update(x for x, y in zip(k, sb) if x is not y)
                                if tuple(k) == T.CTX.shapes[h]:
                                    continue
                                T.CTX.shapes[h] = tuple(k)
                            else:
                                del T.CTX.shapes[h]
                            bad = True
                del self.loops[nl:]
                if not bad:
                    break
                S.clear()
        except AnalysisError:
            pass
        finally:
            self.suppress -= 1
            self.dry -= 1
            del self.loops[nl:]
            scope.vars, self.pc, self.loopstack = saved, pc, ls

    def collapse_ret(self, t):
        if t[0] == "ret":
            return t[1]
        if t[0] == "split":
            a = self.collapse_ret(t[2])
            b = self.collapse_ret(t[3])
            return self.merge(t[1], a, b)
        return MISSING

    def s_For(self, st, scope):
        it = self.eval(st.iter, scope)
        items = self.seq_items(it) if not isinstance(it, Term) or it.op in ("tuple", "shape", "arange", "array") else None
        if isinstance(it, Term) and it.op == "range" and all(T.is_num(x) for x in it.args):
            r = range(*[int(x.args[0]) for x in it.args])
            if len(r) <= 24:
                items = [num(i) for i in r]
        if items is not None and len(items) <= 64:
            def before(k):
                if k == len(items):
                    return False
                self.assign(st.target, items[k], scope)
                return True
            return self._unrolled(st, scope, 0, before)
        rec = LoopRec("for", self.where(st)[1], st.lineno)
        rec.extra["file"] = self.where(st)[0]
        rec.extra["iter"] = it
        tn = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        names = sorted(n for n in self.assigned_names(st.body) if n in scope.vars and n not in tn)

        def pre():
            lab = rec.label
            k = self.fresh("%s.k" % lab, ONE)
            rec.extra["index"] = k
            if isinstance(it, Term) and it.op == "range":
                v = T.add(it.args[0], k) if len(it.args) >= 2 else k
                if len(it.args) == 3:
                    v = T.add(it.args[0], T.mul(k, it.args[2]))
                hi = it.args[1] if len(it.args) >= 2 else it.args[0]
                rec.extra["cond"] = T.cmp("lt", v, hi)
                rec.extra["range"] = it
            elif isinstance(it, Term) and it.op == "enumerate":
                v = PyTuple([k, prims.index(it.args[0], k)])
            elif isinstance(it, Term) and it.op == "zip":
                v = PyTuple([prims.index(x, k) for x in it.args[0]])
            else:
                v = prims.index(self.to_term(it), k)
            self.assign(st.target, v, scope)
        return self._loop(rec, st, scope, names, pre)

    # --------------------------------------------------------- expressions
    def eval(self, e, scope):
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("unsupported expression %s" % k)
            return self.fresh("unsupported_" + k)
        return m(e, scope)

    def e_Constant(self, e, scope):
        return const(e.value)

    def lookup(self, name, scope, quiet=False):
        s = scope
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        if name in BUILTINS:
            return Ext("builtins." + name)
        if not quiet:
            self.event("unbound", name)
            return mk("unbound", name)
        return None

    def e_Name(self, e, scope):
        v = self.lookup(e.id, scope)
        if v is MISSING:
            return mk("unbound", e.id)
        return v

    def e_NamedExpr(self, e, scope):
        v = self.eval(e.value, scope)
        self.assign(e.target, v, scope)
        return v

    def e_Tuple(self, e, scope):
        return PyTuple(self.elts(e.elts, scope), "tuple")

    def e_List(self, e, scope):
        return PyTuple(self.elts(e.elts, scope), "list")

    def e_Set(self, e, scope):
        return mk("set", tuple(sorted((self.to_term(x) for x in self.elts(e.elts, scope)), key=lambda t: t.key)))

    def elts(self, es, scope):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, scope)
                items = self.seq_items(v)
                if items is None:
                    out.append(mk("star", self.to_term(v)))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x, scope))
        return out

    def e_Dict(self, e, scope):
        d, op = {}, False
        for k, v in zip(e.keys, e.values):
            if k is None:
                q = PyDict(d)
                q.merge(self.eval(v, scope))
                d, op = q.items, op or q.open
                continue
            d[self.to_term(self.eval(k, scope))] = self.eval(v, scope)
        return PyDict(d, op)

    def e_JoinedStr(self, e, scope):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.to_term(self.eval(v.value, scope)))
            else:
                parts.append(const(v.value))
        if all(p.op == "const" and isinstance(p.args[1], str) for p in parts):
            return const("".join(p.args[1] for p in parts))
        return mk("fstr", tuple(parts))

    def e_Lambda(self, e, scope):
        return self.make_func(e, scope)

    def e_IfExp(self, e, scope):
        c = self.truth(self.eval(e.test, scope))
        if c is TRUE:
            return self.eval(e.body, scope)
        if c is FALSE:
            return self.eval(e.orelse, scope)
        self.pc.append(c)
        a = self.eval(e.body, scope)
        self.pc[-1] = T.not_(c)
        b = self.eval(e.orelse, scope)
        self.pc.pop()
        return self.merge(c, a, b)

    def e_BoolOp(self, e, scope):
        isand = isinstance(e.op, ast.And)
        vals = []
        npc = 0
        for x in e.values:
            v = self.eval(x, scope)
            vals.append(v)
            c = self.truth(v)
            if (isand and c is FALSE) or (not isand and c is TRUE):
                break
            self.pc.append(c if isand else T.not_(c))
            npc += 1
        for _ in range(npc):
            self.pc.pop()
        # value-level 'or default'
        if not isand and not all(isinstance(v, Term) and self.boolish(v) for v in vals):
            r = vals[-1]
            for v in reversed(vals[:-1]):
                r = self.merge(self.truth(v), v, r)
            return r
        ts = [self.truth(v) for v in vals]
        return T.and_(*ts) if isand else T.or_(*ts)

    def boolish(self, v):
        return T.isb(v) or v.op in ("attr", "sym", "isinstance", "call", "any0", "all0", "ite", "in", "hasattr", "iscomplex", "isreal")

    def truth(self, v):
        if isinstance(v, Term):
            if v is NONE:
                return FALSE
            if v.op == "num":
                return TRUE if v.args[0] != 0 else FALSE
            if v.op == "const" and v.args[0] == "str":
                return TRUE if v.args[1] else FALSE
            if v.op == "tuple":
                return TRUE if v.args[0] else FALSE
            if v.op == "ite":
                a, b = self.truth(v.args[1]), self.truth(v.args[2])
                return T.or_(T.and_(v.args[0], a), T.and_(T.not_(v.args[0]), b))
            return v
        if isinstance(v, PyTuple):
            return TRUE if v.items else FALSE
        if isinstance(v, PyDict):
            return TRUE if v.items else FALSE if not v.open else mk("truth", self.to_term(v))
        if isinstance(v, IteVal):
            a, b = self.truth(v.a), self.truth(v.b)
            return T.or_(T.and_(v.c, a), T.and_(T.not_(v.c), b))
        return TRUE

    def e_UnaryOp(self, e, scope):
        v = self.eval(e.operand, scope)
        o = type(e.op).__name__
        if o == "Not":
            return T.not_(self.truth(v))
        if isinstance(v, NT):
            nm = {"USub": "__neg__", "UAdd": "__pos__"}.get(o)
            m = v.cls.lookup(nm) if nm else None
            if m is not None:
                return self.call(Bound(m, v), [], {}, e)
        t = self.to_term(v)
        if o == "USub":
            return T.neg(t)
        if o == "UAdd":
            return t
        return T.not_(t)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow",
              "FloorDiv": "floordiv", "Mod": "mod"}

    def e_BinOp(self, e, scope):
        a = self.eval(e.left, scope)
        b = self.eval(e.right, scope)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, o, a, b, node=None):
        if isinstance(a, IteVal):
            return self.merge(a.c, self.binop(o, a.a, b, node), self.binop(o, a.b, b, node))
        if isinstance(a, (NT, Obj)) and o in self.DUNDER:
            m = a.cls.lookup("__%s__" % self.DUNDER[o])
            if m is not None:
                return self.call(Bound(m, a), [b], {}, node)
        if isinstance(b, (NT, Obj)) and o in self.DUNDER:
            m = b.cls.lookup("__r%s__" % self.DUNDER[o])
            if m is not None:
                return self.call(Bound(m, b), [a], {}, node)
        if o == "Add" and isinstance(a, PyTuple):
            items = self.seq_items(b)
            if items is not None and not isinstance(b, NT):
                return PyTuple(a.items + items, a.kind)
            tb = self.to_term(b)
            return mk("tcat", self.to_term(a), tb)
        if o == "Mult" and isinstance(a, PyTuple) and isinstance(b, Term) and T.is_num(b):
            return PyTuple(a.items * int(b.args[0]), a.kind)
        if o == "Mult" and isinstance(b, PyTuple) and isinstance(a, Term) and T.is_num(a):
            return PyTuple(b.items * int(a.args[0]), b.kind)
        x, y = self.to_term(a), self.to_term(b)
        if o == "Add" and x.op in ("shape", "tcat", "tuple") or (o == "Add" and y.op in ("shape", "tcat")):
            return mk("tcat", x, y)
        if x.op == "const" and x.args[0] == "str" or y.op == "const" and y.args[0] == "str" or x.op == "fstr" or y.op == "fstr":
            if o == "Add" and all(q.op == "const" and isinstance(q.args[1], str) for q in (x, y)):
                return const(x.args[1] + y.args[1])
            return mk("strop", o, x, y)
        if o == "Mult" and x is T.ZERO and y.op == "ones" or o == "Mult" and y is T.ZERO and x.op == "ones":
            return mk("zeros", (x if x.op == "ones" else y).args[0])
        # booleans as numbers
        if T.isb(x) and o in ("Add", "Sub", "Mult", "Div"):
            x = T.ite(x, ONE, ZERO)
        if T.isb(y) and o in ("Add", "Sub", "Mult", "Div"):
            y = T.ite(y, ONE, ZERO)
        if o == "Add":
            return T.add(x, y)
        if o == "Sub":
            return T.sub(x, y)
        if o == "Mult":
            return T.mul(x, y)
        if o == "Div":
            return T.div(x, y)
        if o == "MatMult":
            return T.mm(x, y)
        if o == "Pow":
            return prims.pow_(x, y)
        if o == "BitAnd":
            return T.and_(x, y)
        if o == "BitOr":
            return T.or_(x, y)
        if o in ("FloorDiv", "Mod") and T.is_num(x) and T.is_num(y) and y.args[0] != 0:
            a_, b_ = x.args[0], y.args[0]
            return num(a_ // b_) if o == "FloorDiv" else num(a_ % b_)
        if o == "FloorDiv":
            r = T.div(x, y)
            return mk("floordiv", x, y)
        if o in ("RShift", "LShift") and T.is_num(y) and y.args[0] >= 0 and y.args[0].denominator == 1:
            k = 2 ** int(y.args[0])
            if o == "LShift":
                return T.scale(x, k)
            if all(c.denominator == 1 and c % k == 0 for c in T._as_poly(x).values()):
                return T.scale(x, T.Fraction(1, k))
            return mk("floordiv", x, num(k))
        return mk("bin", o, x, y)

    CMP = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}

    def e_Compare(self, e, scope):
        left = self.eval(e.left, scope)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, scope)
            res.append(self.compare(type(op).__name__, left, right))
            left = right
        return T.and_(*res) if len(res) > 1 else res[0]

    def none_test(self, v):
        """v is None"""
        if v is NONE:
            return TRUE
        if isinstance(v, IteVal):
            a, b = self.none_test(v.a), self.none_test(v.b)
            return T.or_(T.and_(v.c, a), T.and_(T.not_(v.c), b))
        if isinstance(v, Term):
            if v.op == "ite":
                a, b = self.none_test(v.args[1]), self.none_test(v.args[2])
                return T.or_(T.and_(v.args[0], a), T.and_(T.not_(v.args[0]), b))
            if v in self.maybe_none:
                return mk("cmp", "eqv", *sorted((v, NONE), key=lambda t: t.key))
            if v.op == "attr" and v.args[0] in self.maybe_none:
                return mk("cmp", "eqv", *sorted((v, NONE), key=lambda t: t.key))
            return FALSE
        return FALSE

    def compare(self, o, a, b):
        if o in ("Is", "IsNot") or (o in ("Eq", "NotEq") and (a is NONE or b is NONE)):
            if a is NONE or b is NONE:
                r = self.none_test(b if a is NONE else a)
            else:
                x, y = self.to_term(a), self.to_term(b)
                r = TRUE if x is y else mk("cmp", "eqv", *sorted((x, y), key=lambda t: t.key))
            return r if o in ("Is", "Eq") else T.not_(r)
        if o in ("In", "NotIn"):
            items = self.seq_items(b)
            x = self.to_term(a)
            if isinstance(b, PyDict):
                items = list(b.items.keys()) if not b.open else None
            if items is not None:
                ts = [self.to_term(i) for i in items]
                if x.op in ("const", "num") and all(t.op in ("const", "num") for t in ts):
                    r = TRUE if x in ts else FALSE
                else:
                    r = T.or_(*[T.cmp("eq", x, t) for t in ts])
            else:
                r = mk("in", x, self.to_term(b))
            return r if o == "In" else T.not_(r)
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and o in ("Eq", "NotEq"):
            if len(a.items) != len(b.items):
                r = FALSE
            else:
                r = T.and_(*[self.compare("Eq", x, y) for x, y in zip(a.items, b.items)])
            return r if o == "Eq" else T.not_(r)
        return T.cmp(self.CMP[o], self.to_term(a), self.to_term(b))

    def e_Attribute(self, e, scope):
        v = self.eval(e.value, scope)
        return self.getattr(v, e.attr, e)

    def getattr(self, v, name, node=None):
        if isinstance(v, Mod):
            r = self.mod_attr(v.module, name)
            if r is None:
                self.event("badattr", (v.module.name, name), node)
                return mk("unresolved", v.module.name, name)
            return r
        if isinstance(v, Ext):
            return self.ext_attr(v, name)
        if isinstance(v, NT):
            if name in v.fields:
                return v.fields[name]
            if name == "_replace":
                return Bound(Ext("nt._replace"), v)
            if name == "_asdict":
                return Bound(Ext("nt._asdict"), v)
            m = v.cls.lookup(name)
            if m is not None:
                return self.bind(m, v, node)
            self.event("nofield", (v.cls.name, name), node)
            return mk("attr", self.to_term(v), name)
        if isinstance(v, Obj):
            if name in v.attrs:
                return v.attrs[name]
            m = v.cls.lookup(name)
            if m is not None:
                return self.bind(m, v, node)
            return mk("attr", mk("obj", v.cls.name), name)
        if isinstance(v, Cls):
            m = v.lookup(name)
            if m is not None:
                return m.func if isinstance(m, Static) else m
            if name == "_fields":
                return PyTuple([const(f) for f, _ in v.fields])
            for f, d in v.fields:
                if f == name and d is not MISSING:
                    return d
            return mk("attr", mk("cls", v.name), name)
        if isinstance(v, IteVal):
            a, b = v.a, v.b
            if a is NONE:
                return self.getattr(b, name, node)
            if b is NONE:
                return self.getattr(a, name, node)
            return self.merge(v.c, self.getattr(a, name, node), self.getattr(b, name, node))
        if isinstance(v, (PyTuple, PyDict)):
            return Bound(Ext("py." + name), v)
        if isinstance(v, (Jit, Partial, Func)):
            return mk("attr", mk("fnattr"), name)
        t = self.to_term(v)
        if t.op == "unbound" or t.op == "unresolved":
            return t
        if t.op == "at":      # x.at
            return Bound(Ext("at." + name), v)
        if t.op == "atidx":
            return Bound(Ext("at." + name), v)
        if name == "at":
            return mk("at", t)
        if t.op == "const" and t.args[0] == "str" and name in STR_METHODS:
            return Bound(Ext("str." + name), t)
        r = self.term_attr(t, name)
        if r is not None:
            return r
        return Bound(Ext("method." + name), t) if name in METHOD_NAMES else mk("attr", t, name)

    def term_attr(self, t, name):
        key = (t, name)
        if key in self.attr_table:
            return self.attr_table[key]
        if t.op == "ite" and name in ("shape",):
            return T.ite(t.args[0], self.term_attr(t.args[1], name), self.term_attr(t.args[2], name))
        if name in ("T", "real", "imag", "shape", "size", "ndim", "dtype"):
            if t in self.opsyms:
                if name == "shape":
                    s = T.CTX.shapes.get(t)
                    if s is not None:
                        return PyTuple(list(s))
                    return PyTuple([mk("dim", t, num(0)), mk("dim", t, num(1))])
                return mk("attr", t, name)
            return prims.attribute(t, name)
        return None

    attr_table = {}
    opsyms = set()
    int_syms = set()
    unroll = 0
    def bind(self, m, v, node):
        if isinstance(m, Prop):
            return self.call(m.func, [v], {}, node)
        if isinstance(m, Static):
            return m.func
        if isinstance(m, (Func, Jit, Partial)):
            return Bound(m, v)
        return m

    def e_Subscript(self, e, scope):
        v = self.eval(e.value, scope)
        i = self.index_value(e.slice, scope)
        return self.subscript(v, i, e)

    def index_value(self, s, scope):
        if isinstance(s, ast.Slice):
            return prims.slc(*[NONE if x is None else self.to_term(self.eval(x, scope)) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tup([self.index_term(x, scope) for x in s.elts])
        return self.eval(s, scope)

    def index_term(self, x, scope):
        if isinstance(x, ast.Slice):
            return self.index_value(x, scope)
        if isinstance(x, ast.Starred):
            return mk("star", self.to_term(self.eval(x.value, scope)))
        return self.to_term(self.eval(x, scope))

    def open_grid(self, i):
        """np.ogrid[a:b:c, ...] as ranges along their own axes"""
        its = i.args[0] if i.op == "tuple" else (i,)
        if any(x.op != "slice" or x.args[1] is NONE or x.args[2].op == "const" and x.args[2] is not NONE for x in its):
            return None
        out = []
        for k, x in enumerate(its):
            lo, hi, st = x.args
            v = self.call(self.spec("def spec(a, b, c): return jnp.arange(a, b, c)", "spec"),
                          [ZERO if lo is NONE else lo, hi, num(1) if st is NONE else st], {})
            ix = [NONE] * len(its)
            ix[k] = prims.slc(NONE, NONE, NONE)
            out.append(prims.index(self.to_term(v), tup(ix)) if len(its) > 1 else v)
        return PyTuple(out) if len(out) > 1 else out[0]

    def subscript(self, v, i, node=None):
        if isinstance(v, IteVal):
            return self.merge(v.c, self.subscript(v.a, i, node), self.subscript(v.b, i, node))
        if isinstance(v, Ext) or isinstance(v, Cls):
            if isinstance(v, Ext) and v.name == "np.ogrid":
                g = self.open_grid(self.to_term(i))
                if g is not None:
                    return g
            if isinstance(v, Ext) and v.name.startswith("np."):
                return mk("call", v.name + "[]", (self.to_term(i),), ())
            return v
        it = self.to_term(i)
        if isinstance(v, PyTuple):
            if T.is_num(it):
                k = int(it.args[0])
                if -len(v.items) <= k < len(v.items):
                    return v.items[k]
            if it.op == "slice" and all(x is NONE or T.is_num(x) for x in it.args):
                sl = slice(*[None if x is NONE else int(x.args[0]) for x in it.args])
                return PyTuple(v.items[sl], v.kind)
            if it.op == "ite":
                return self.merge(it.args[0], self.subscript(v, it.args[1], node), self.subscript(v, it.args[2], node))
            return mk("idx", self.to_term(v), it)
        if isinstance(v, PyDict):
            if it in v.items:
                return v.items[it]
            return mk("idx", self.to_term(v), it)
        if isinstance(v, NT):
            if T.is_num(it):
                items = list(v.fields.values())
                k = int(it.args[0])
                if -len(items) <= k < len(items):
                    return items[k]
            return mk("idx", self.to_term(v), it)
        t = self.to_term(v)
        if t.op == "at":
            return mk("atidx", t.args[0], it)
        if t.op == "shape" and it.op == "slice":
            s = S.shape_of(t.args[0])
            if s is not None and all(x is NONE or T.is_num(x) for x in it.args):
                sl = slice(*[None if x is NONE else int(x.args[0]) for x in it.args])
                return PyTuple(list(s[sl]))
        h = self.hooks.get("index")
        if h is not None:
            r = h(self, t, it)
            if r is not None:
                return r
        return prims.index(t, it)

    def e_Starred(self, e, scope):
        return mk("star", self.to_term(self.eval(e.value, scope)))

    def e_ListComp(self, e, scope):
        return self.comp(e, scope, "list")

    def e_GeneratorExp(self, e, scope):
        return self.comp(e, scope, "list")

    def e_SetComp(self, e, scope):
        return self.comp(e, scope, "list")

    def e_DictComp(self, e, scope):
        r = self.comp(ast.copy_location(ast.ListComp(elt=ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e), generators=e.generators), e), scope, "list")
        if isinstance(r, PyTuple) and all(isinstance(x, PyTuple) and len(x.items) == 2 for x in r.items):
            return PyDict({self.to_term(x.items[0]): x.items[1] for x in r.items})
        return PyDict(open_=True)

    def comp(self, e, scope, kind):
        gens = e.generators
        cs = Scope(scope, scope.module, scope.fname)

        def rec(i):
            if i == len(gens):
                return [self.eval(e.elt, cs)]
            g = gens[i]
            it = self.eval(g.iter, cs if i else scope)
            items = self.iter_items(it)
            if items is None:
                return None
            out = []
            for x in items:
                self.assign(g.target, x, cs)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, cs))
                    if t is FALSE:
                        ok = False
                    elif t is not TRUE:
                        return None
                if ok:
                    r = rec(i + 1)
                    if r is None:
                        return None
                    out.extend(r)
            return out
        if len(gens) >= 1:
            r = rec(0)
            if r is not None:
                return PyTuple(r, kind)
        g = gens[0]
        it = self.to_term(self.eval(g.iter, scope))
        bv = sym("κ%d" % self.depth)
        T.CTX.scalars.add(bv)
        if it.op == "range":
            el = T.add(it.args[0], bv) if len(it.args) >= 2 else bv
        elif it.op == "zip":
            el = PyTuple([prims.index(x, bv) for x in it.args[0]])
        elif it.op == "enumerate":
            el = PyTuple([bv, prims.index(it.args[0], bv)])
        else:
            el = self.elem_of(it, bv)
        self.assign(g.target, el, cs)
        conds = [self.to_term(self.truth(self.eval(c, cs))) for c in g.ifs]
        self.loopstack.append(LoopRec("comp", self.where(e)[1], e.lineno))
        try:
            body = self.eval(e.elt, cs)
        finally:
            self.loopstack.pop()
        return mk("comp", bv, self.to_term(body), it, tuple(conds))

    def elem_of(self, it, bv):
        return prims.index(it, bv)

    def iter_items(self, it):
        items = self.seq_items(it)
        if items is not None:
            return items
        if isinstance(it, Term) and it.op == "range" and all(T.is_num(x) for x in it.args):
            r = range(*[int(x.args[0]) for x in it.args])
            if len(r) <= 64:
                return [num(i) for i in r]
        return None

    # --------------------------------------------------------------- calls
    def e_Call(self, e, scope):
        f = self.eval(e.func, scope)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, scope)
                items = self.seq_items(v)
                if items is None:
                    args.append(mk("star", self.to_term(v)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, scope))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, scope)
            if k.arg is None:
                if isinstance(v, PyDict):
                    for kk, vv in v.items.items():
                        if isinstance(kk, Term) and kk.op == "const":
                            kw[kk.args[1]] = vv
                        else:
                            kw["**"] = v
                    if v.open:
                        kw["**"] = v
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Jit):
            return self.call(f.func, args, kw, node)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Ext):
                return self.call_method(f.func.name, f.self_, args, kw, node)
            return self.call(f.func, [f.self_] + list(args), kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw, node)
        if isinstance(f, IteVal):
            self.pc.append(f.c)
            a = self.call(f.a, args, kw, node) if f.a is not NONE else MISSING
            self.pc[-1] = T.not_(f.c)
            b = self.call(f.b, args, kw, node) if f.b is not NONE else MISSING
            self.pc.pop()
            return self.merge(f.c, a, b)
        if isinstance(f, Vmap):
            return self.call_vmap(f, args, kw, node)
        if isinstance(f, Grad):
            return self.call_grad(f, args, kw, node)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw, node)
        if isinstance(f, NT):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kw, node)
        t = self.to_term(f)
        return self.call_term(t, args, kw, node)

    def call_grad(self, f, args, kw, node):
        t = self.to_term(f.func)
        return mk("gradcall", t, tuple(self.to_term(a) for a in args))

    def call_term(self, t, args, kw, node):
        ta = [self.to_term(a) for a in args]
        tk = {k: self.to_term(v) for k, v in kw.items()}
        if t.op == "attr" and t.args[1] in ("times", "trans") and len(ta) == 1 and not tk:
            self.event("app", (t.args[0], t.args[1], ta[0]), node)
            return T.app(t.args[0], t.args[1], ta[0])
        if t.op == "ite":
            self.pc.append(t.args[0])
            a = self.call_term(t.args[1], args, kw, node)
            self.pc[-1] = T.not_(t.args[0])
            b = self.call_term(t.args[2], args, kw, node)
            self.pc.pop()
            return self.merge(t.args[0], a, b)
        if t.op == "lam" and len(t.args[0]) == len(ta) and not tk:
            return T.subst(t.args[1], dict(zip(t.args[0], ta)))
        h = self.hooks.get("apply")
        if h is not None:
            r = h(self, t, ta, tk, node)
            if r is not None:
                return r
        self.event("apply", (t, ta, tk), node)
        return mk("apply", t, tuple(ta), tuple(sorted(tk.items())))

    def call_vmap(self, f, args, kw, node):
        ta = [self.to_term(a) for a in args]
        # generic element analysis
        ia = f.in_axes
        axes = None
        n = len(args)
        if isinstance(ia, PyTuple):
            axes = [self.to_term(x) for x in ia.items]
        elif isinstance(ia, Term):
            axes = [ia] * n
        if axes is None or len(axes) != n:
            return mk("vmap", self.to_term(f.func), tuple(ta))
        bvs = []
        for i, (t, ax) in enumerate(zip(ta, axes)):
            if ax is NONE:
                bvs.append(t)
                continue
            sh = S.shape_of(t)
            b = sym("ν%d_%d:%s" % (self.nest, i, "?" if sh is None or not T.is_num(ax) else
                                   "%s@%s" % (",".join(T.show(d, 9) for d in sh), T.show(ax))))
            if sh is not None and T.is_num(ax):
                k = int(ax.args[0])
                rest = sh[:k] + sh[k + 1:]
                if rest:
                    T.CTX.shapes[b] = rest
                else:
                    T.CTX.scalars.add(b)
            bvs.append(b)
        rec = LoopRec("vmap", self.where(node)[1], getattr(node, "lineno", 0))
        self.loopstack.append(rec)
        self.nest += 1
        try:
            r = self.call(f.func, bvs, kw, node)
        finally:
            self.nest -= 1
            self.loopstack.pop()

        def wrap(v, oa):
            each = oa.items if isinstance(oa, PyTuple) else None
            if isinstance(v, PyTuple):
                if each is None or len(each) != len(v.items):
                    each = [oa] * len(v.items)
                return PyTuple([wrap(x, o) for x, o in zip(v.items, each)], v.kind)
            if isinstance(v, NT):
                return NT(v.cls, {k: wrap(x, oa) for k, x in v.fields.items()})
            body = self.to_term(v)
            used = tuple((b, ax, t) for b, ax, t in zip(bvs, axes, ta) if ax is not NONE)
            return mk("vmapped", body, used, self.to_term(oa))
        return wrap(r, f.out_axes)

    def call_func(self, f, args, kw, node):
        q = f.module.name + ":" + f.qual
        if COVER is not None:
            COVER.add((f.module.rel, f.qual))
        h = self.opaque_funcs.get(q) or self.opaque_funcs.get(f.name if f.qual == f.name else None)
        if h is not None:
            r = h(self, f, args, kw, node)
            if r is not None:
                return r
        if f.module.name.startswith("cr.wavelets") and f.scope.parent is None:
            return self.wavelet_prim(f, args, kw)
        if f.module.name.startswith("cr.nimble") and f.scope.parent is None:
            r = self.nimble_prim(f, args, kw)
            if r is not None:
                return r
        if self.depth >= self.MAXDEPTH or any(fn is f for fn in self.active):
            self.note("recursion/depth limit at %s" % q)
            return mk("call", q, tuple(self.to_term(a) for a in args),
                      tuple(sorted((k, self.to_term(v)) for k, v in kw.items())))
        env, err = self.bind_args(f, args, kw)
        if err:
            self.event("arity", (q, err), node)
            self.note("arity: %s %s" % (q, err))
            return mk("badcall", q)
        scope = Scope(f.scope, f.module, f.qual)
        scope.vars.update(env)
        self.depth += 1
        self.fnstack.append((f.module, f.qual))
        self.active.append(f)
        try:
            if f.is_lambda:
                return self.eval(f.node.body, scope)
            r = self.collapse(self.exec_block(f.node.body, scope))
            return NONE if r is MISSING else r
        finally:
            self.active.pop()
            self.fnstack.pop()
            self.depth -= 1

    active = []
    nest = 0

    def wavelet_prim(self, f, args, kw):
        """cr.wavelets is a dependency: the one-level periodized filter bank is
        a generator (dwt/idwt), everything else stays uninterpreted"""
        ps = f.params()
        ta = [self.to_term(a) for a in args]
        tk = {k: self.to_term(v) for k, v in kw.items()}
        while len(ta) < len(ps) and ps[len(ta)] in tk:
            ta.append(tk.pop(ps[len(ta)]))
        per = const("periodization")
        if f.name == "dwt_" and len(ta) == 4 and ta[3] is per:
            return PyTuple([mk("dwt", ta[0], ta[1], ta[2], num(k)) for k in (0, 1)])
        if f.name == "idwt_" and len(ta) == 5 and ta[4] is per:
            return mk("idwt", *ta[:4])
        if f.name == "dwt_axis_" and len(ta) == 5 and ta[4] is per:
            self.fresh_n += 1
            bv = sym("αw%d" % self.fresh_n)
            xs = S.shape_of(ta[0])
            if xs is not None and T.is_num(ta[3]):
                T.CTX.shapes[bv] = (xs[int(ta[3].args[0]) % len(xs)],)
                return PyTuple([mk("along", bv, mk("dwt", bv, ta[1], ta[2], num(k)), ta[3], ta[0]) for k in (0, 1)])
        if f.name == "idwt_axis_" and len(ta) == 6 and ta[5] is per:
            self.fresh_n += 1
            bv = sym("αw%d" % self.fresh_n)
            xs = S.shape_of(ta[0])
            if xs is not None and T.is_num(ta[4]):
                d = xs[int(ta[4].args[0]) % len(xs)]
                T.CTX.shapes[bv] = (T.scale(d, 2),)
                body = mk("idwt", mk("idx", bv, prims.slc(NONE, d, NONE)), mk("idx", bv, prims.slc(d, NONE, NONE)), ta[2], ta[3])
                return mk("along", bv, body, ta[4], mk("concat", tup([ta[0], ta[1]]), ta[4]))
        return mk("call", "wt." + f.name, tuple(ta), tuple(sorted(tk.items())))

    def nimble_prim(self, f, args, kw):
        if f.name == "promote_arg_dtypes":
            if len(args) == 1:
                return args[0]
            return PyTuple(args)
        if f.name == "fwht":
            return mk("call", "nimble.dsp.fwht", tuple(self.to_term(a) for a in args), ())
        p = PRIMS.get("nimble." + f.name)
        if p is None:
            return None
        try:
            # normalise keyword arguments to positional order when possible
            ps = f.params()
            ta = [self.to_term(a) for a in args]
            tk = {k: self.to_term(v) for k, v in kw.items()}
            while len(ta) < len(ps) and ps[len(ta)] in tk:
                ta.append(tk.pop(ps[len(ta)]))
            return p(ta, tk)
        except Fail:
            return mk("call", "nimble." + f.name, tuple(self.to_term(a) for a in args),
                      tuple(sorted((k, self.to_term(v)) for k, v in kw.items())))

    def bind_args(self, f, args, kw):
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(ps):
            if a.vararg:
                env[a.vararg.arg] = PyTuple(args[len(ps):])
                args = args[:len(ps)]
            else:
                return None, "takes %d positional arguments, got %d" % (len(ps), len(args))
        elif a.vararg:
            env[a.vararg.arg] = PyTuple([])
        star = next((i for i, x in enumerate(args) if isinstance(x, Term) and x.op == "star"), None)
        for i, (p, v) in enumerate(zip(ps, args)):
            if star is not None and i >= star:
                break
            env[p] = v
        if star is not None:
            for p in ps[star:]:
                if p not in kw:
                    env[p] = self.fresh("arg." + p)
        extra = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if k == "**":
                continue
            if k in ps or k in kwonly:
                if k in env:
                    return None, "multiple values for %s" % k
                env[k] = v
            elif a.kwarg:
                extra[const(k)] = v
            else:
                return None, "unexpected keyword %s" % k
        if a.kwarg:
            env[a.kwarg.arg] = PyDict(extra, "**" in kw)
        nd = len(f.defaults)
        for i, p in enumerate(ps):
            if p not in env:
                j = i - (len(ps) - nd)
                if "**" in kw:
                    env[p] = self.fresh("kw." + p)
                elif j >= 0:
                    env[p] = f.defaults[j]
                else:
                    return None, "missing argument %s" % p
        for p in kwonly:
            if p not in env:
                d = f.kwdefaults.get(p, MISSING)
                if "**" in kw:
                    d = self.fresh("kw." + p)
                if d is MISSING:
                    return None, "missing keyword %s" % p
                env[p] = d
        return env, None

    def instantiate(self, c, args, kw, node):
        if c.kind in ("namedtuple", "dataclass"):
            names = [n for n, _ in c.fields]
            fields = {}
            star = next((i for i, x in enumerate(args) if isinstance(x, Term) and x.op == "star"), None)
            if star is not None:
                args = list(args[:star]) + [self.fresh("arg." + n) for n in names[star:] if n not in kw]
            if len(args) > len(names):
                self.event("arity", (c.name, "too many arguments"), node)
                args = args[:len(names)]
            for n, v in zip(names, args):
                fields[n] = v
            for k, v in kw.items():
                if k == "**":
                    continue
                if k not in names:
                    self.event("nofield", (c.name, k), node)
                    continue
                fields[k] = v
            for n, d in c.fields:
                if n not in fields:
                    if "**" in kw:
                        fields[n] = self.fresh("kw." + n)
                    elif d is MISSING:
                        self.event("missingfield", (c.name, n), node)
                        fields[n] = mk("unbound", n)
                    else:
                        fields[n] = d
            v = NT(c, {n: fields[n] for n in names})
            self.event("construct", v, node)
            return v
        o = Obj(c)
        init = c.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kw, node)
        return o

    # ------------------------------------------------------ external calls
    def call_method(self, name, self_, args, kw, node):
        if name == "nt._replace":
            f = dict(self_.fields)
            if "**" in kw:
                f = {k: self.fresh("kw." + k) for k in f}
            for k, v in kw.items():
                if k == "**":
                    continue
                if k not in f:
                    self.event("nofield", (self_.cls.name, k), node)
                f[k] = v
            v = NT(self_.cls, f)
            self.event("construct", v, node)
            return v
        if name == "nt._asdict":
            return PyDict({const(k): v for k, v in self_.fields.items()})
        if name.startswith("str."):
            return self.str_method(name[4:], self_, args, kw)
        if name.startswith("at."):
            t = self.to_term(self_)
            if t.op == "atidx" and args:
                v = self.to_term(args[0])
                m = name[3:]
                self.event("scatter", (t.args[0], v), node)
                return mk("at_" + m, t.args[0], t.args[1], v)
            return mk("call", name, (t,) + tuple(self.to_term(a) for a in args), ())
        if name.startswith("py."):
            m = name[3:]
            if isinstance(self_, PyDict):
                if m in ("keys", "values", "items") and self_.open:
                    return mk("call", name, (self.to_term(self_),), ())
                if m == "keys":
                    return PyTuple(list(self_.items.keys()), "list")
                if m == "values":
                    return PyTuple(list(self_.items.values()), "list")
                if m == "items":
                    return PyTuple([PyTuple([k, v]) for k, v in self_.items.items()], "list")
                if m == "copy":
                    return PyDict(self_.items, self_.open)
                if m == "update":
                    for x in args:
                        self_.merge(x)
                    self_.merge(PyDict({const(k): v for k, v in kw.items() if k != "**"}, "**" in kw))
                    return NONE
                if m in ("pop", "popitem", "clear", "setdefault"):
                    k = self.to_term(args[0]) if args else None
                    if m == "pop" and k in self_.items and not self_.open:
                        return self_.items.pop(k)
                    if m == "setdefault" and k is not None and len(args) > 1 and not self_.open and k.op == "const" and all(x.op == "const" for x in self_.items):
                        return self_.items.setdefault(k, args[1])
                    self_.merge(None)
                if m == "get" and args:
                    k = self.to_term(args[0])
                    if k in self_.items:
                        return self_.items[k]
                    if k.op == "const" and not self_.open:
                        return args[1] if len(args) > 1 else NONE
            self.event("pymethod", (m, self_, args), node)
            return mk("call", name, (self.to_term(self_),) + tuple(self.to_term(a) for a in args), ())
        if name.startswith("method."):
            m = name[7:]
            t = self_
            if m in prims.METHOD_IDENT:
                if m == "astype" and isinstance(t, Term) and (args or "dtype" in kw):
                    d = self.to_term(args[0] if args else kw["dtype"])
                    self.event("cast", (t, d), node)
                    return prims.cast(t, d)
                return t
            if m in prims.METHODS:
                full = prims.METHODS[m]
                if m == "reshape" and len(args) > 1:
                    args = [PyTuple(args)]
                if m == "transpose" and args:
                    return mk("call", "np.transpose", tuple(self.to_term(a) for a in [t] + list(args)), ())
                return self.call_ext(full, [t] + list(args), kw, node)
            return mk("call", name, (t,) + tuple(self.to_term(a) for a in args),
                      tuple(sorted((k, self.to_term(v)) for k, v in kw.items())))
        return self.call_ext(name, [self_] + list(args), kw, node)

    def str_method(self, m, self_, args, kw):
        """A method of a known string, evaluated when its arguments are known as well."""
        def plain(v):
            if isinstance(v, PyTuple):
                return [plain(x) for x in v.items]
            t = self.to_term(v)
            if t.op == "const" and t.args[0] in ("str", "bool"):
                return t.args[1]
            if t.op == "num" and t.args[0] == int(t.args[0]):
                return int(t.args[0])
            if t is NONE:
                return None
            raise ValueError
        try:
            out = getattr(self_.args[1], m)(*[plain(a) for a in args], **{k: plain(v) for k, v in kw.items()})
        except Exception:  # noqa
            return mk("call", "method." + m, (self_,) + tuple(self.to_term(a) for a in args), ())
        if isinstance(out, (list, tuple)):
            return PyTuple([const(x) for x in out], "list" if isinstance(out, list) else "tuple")
        return const(out)

    def call_ext(self, name, args, kw, node):
        h = EXT.get(name)
        if h is not None:
            return h(self, args, kw, node)
        hk = self.hooks.get("ext")
        if hk is not None:
            r = hk(self, name, args, kw, node)
            if r is not None:
                return r
        ta = [self.to_term(a) for a in args]
        tk = {k: self.to_term(v) for k, v in kw.items()}
        self.event("ext", (name, ta, tk), node)
        p = PRIMS.get(name)
        if p is not None:
            try:
                return p(ta, tk)
            except Fail:
                pass
        if name in MULTI:
            n = MULTI[name]
            base = mk("call", name, tuple(ta), tuple(sorted(tk.items())))
            if name == "linalg.svd" and (tk.get("compute_uv") is FALSE or len(ta) > 2 and ta[2] is FALSE):
                return base
            if name == "linalg.qr" and (tk.get("mode") is const("r") or len(ta) > 1 and ta[1] is const("r")):
                return base
            return PyTuple([mk("idx", base, num(i)) for i in range(n)])
        return mk("call", name, tuple(ta), tuple(sorted(tk.items())))


STR_METHODS = {"split", "rsplit", "partition", "rpartition", "replace", "join", "lower", "upper", "strip", "lstrip", "rstrip",
               "startswith", "endswith", "removeprefix", "removesuffix", "title", "capitalize", "find", "rfind", "count"}
METHOD_NAMES = set(prims.METHODS) | prims.METHOD_IDENT | {"format", "split", "join", "startswith", "endswith", "tolist", "sum_duplicates", "keys", "append", "rstrip"}
MULTI = {"linalg.svd": 3, "linalg.qr": 2, "linalg.lstsq": 4, "linalg.eigh": 2, "linalg.slogdet": 2,
         "np.meshgrid": 2, "np.diag_indices": 2}

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def _flat(v):
    if isinstance(v, dict):
        return [q for x in v.values() for q in _flat(x)]
    if isinstance(v, PyTuple):
        return [q for x in v.items for q in _flat(x)]
    if isinstance(v, NT):
        return [q for x in v.fields.values() for q in _flat(x)]
    return [v]


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _has_leaf(t, leaf):
    if t is leaf:
        return True
    if t[0] == "split":
        return _has_leaf(t[2], leaf) or _has_leaf(t[3], leaf)
    return False


def _has_ret(t):
    if t[0] == "ret":
        return True
    if t[0] == "split":
        return _has_ret(t[2]) or _has_ret(t[3])
    return False


# ------------------------------------------------- special external functions
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext("jax.jit")
def _jit(I, args, kw, node):
    if not args:
        return Partial(Ext("jax.jit"), [], kw)
    return Jit(args[0], kw, node)


@ext("functools.partial", "jax.tree_util.Partial")
def _partial(I, args, kw, node):
    return Partial(args[0], args[1:], kw)


@ext("jax.vmap")
def _vmap(I, args, kw, node):
    f = args[0]
    ia = args[1] if len(args) > 1 else kw.get("in_axes", num(0))
    oa = args[2] if len(args) > 2 else kw.get("out_axes", num(0))
    return Vmap(f, ia, oa)


@ext("jax.grad")
def _grad(I, args, kw, node):
    return Grad(args[0])


@ext("jax.value_and_grad")
def _vgrad(I, args, kw, node):
    return Grad(args[0], True)


@ext("jax.experimental.sparse.sparsify")
def _sparsify(I, args, kw, node):
    return args[0]


@ext("lax.cond")
def _cond(I, args, kw, node):
    c = I.truth(args[0])
    tf, ff = args[1], args[2]
    ops = list(args[3:])
    if "operand" in kw:
        ops.append(kw["operand"])
    if c is TRUE:
        return I.call(tf, ops, {}, node)
    if c is FALSE:
        return I.call(ff, ops, {}, node)
    I.pc.append(c)
    a = I.call(tf, ops, {}, node)
    I.pc[-1] = T.not_(c)
    b = I.call(ff, ops, {}, node)
    I.pc.pop()
    return I.merge(c, a, b)


@ext("lax.switch")
def _switch(I, args, kw, node):
    i = I.to_term(args[0])
    fs = I.seq_items(args[1])
    if fs is None:
        return mk("call", "lax.switch", tuple(I.to_term(a) for a in args), ())
    vals = []
    for k, f in enumerate(fs):
        c = T.cmp("eq", i, num(k))
        I.pc.append(c)
        vals.append(I.call(f, args[2:], {}, node))
        I.pc.pop()
    r = vals[-1]
    for k in range(len(fs) - 2, -1, -1):
        r = I.merge(T.cmp("eq", i, num(k)), vals[k], r)
    return r


@ext("lax.while_loop")
def _while(I, args, kw, node):
    a = list(args)
    for n in ("cond_fun", "body_fun", "init_val"):
        if n in kw:
            a.append(kw[n])
    cf, bf, init = a[:3]
    st, k = init, 0
    while k < I.unroll:
        c = I.truth(I.call(cf, [st], {}, node))
        if c is FALSE:
            return st
        if c is not TRUE:
            break
        st = I.call(bf, [st], {}, node)
        k += 1
    rec = LoopRec("lax.while_loop", I.where(node)[1], getattr(node, "lineno", 0))
    rec.extra["file"] = I.where(node)[0]
    rec.pc = tuple(I.pc)
    rec.outer = tuple(I.loopstack)
    I.loops.append(rec)
    rec.label = "L%d" % (len(I.loops) - 1)
    rec.init = init
    rec.head = I.fresh_like(init, rec.label)
    I.loopstack.append(rec)
    try:
        k0 = len(I.events)
        rec.cond = I.truth(I.call(cf, [rec.head], {}, node))
        rec.ev_cond = I.events[k0:]
        rec.body = I.call(bf, [rec.head], {}, node)
    finally:
        I.loopstack.pop()
    return rec.head


@ext("lax.fori_loop")
def _fori(I, args, kw, node):
    lo, hi, bf, init = args[:4]
    tl, th = I.to_term(lo), I.to_term(hi)
    if I.unroll and T.is_num(tl) and T.is_num(th) and th.args[0] - tl.args[0] <= I.unroll:
        st = init
        for k in range(int(tl.args[0]), int(th.args[0])):
            st = I.call(bf, [num(k), st], {}, node)
        return st
    rec = LoopRec("lax.fori_loop", I.where(node)[1], getattr(node, "lineno", 0))
    rec.extra["file"] = I.where(node)[0]
    rec.pc = tuple(I.pc)
    rec.outer = tuple(I.loopstack)
    I.loops.append(rec)
    rec.label = "L%d" % (len(I.loops) - 1)
    rec.init = init
    rec.head = I.fresh_like(init, rec.label)
    k = I.fresh(rec.label + ".k", ONE)
    rec.extra["index"] = k
    rec.extra["range"] = mk("range", I.to_term(lo), I.to_term(hi))
    rec.cond = T.cmp("lt", k, I.to_term(hi))
    I.loopstack.append(rec)
    try:
        rec.body = I.call(bf, [k, rec.head], {}, node)
    finally:
        I.loopstack.pop()
    return rec.head


@ext("lax.scan")
def _scan(I, args, kw, node):
    f, init, xs = args[:3]
    rec = LoopRec("lax.scan", I.where(node)[1], getattr(node, "lineno", 0))
    rec.extra["file"] = I.where(node)[0]
    rec.pc = tuple(I.pc)
    rec.outer = tuple(I.loopstack)
    I.loops.append(rec)
    rec.label = "L%d" % (len(I.loops) - 1)
    rec.init = init
    rec.head = I.fresh_like(init, rec.label)
    x = I.fresh(rec.label + ".x")
    I.loopstack.append(rec)
    try:
        r = I.call(f, [rec.head, x], {}, node)
    finally:
        I.loopstack.pop()
    rec.body = r
    return PyTuple([rec.head, I.fresh(rec.label + ".ys")])


@ext("functools.reduce")
def _reduce(I, args, kw, node):
    items = I.seq_items(args[1])
    if items is None:
        return mk("call", "functools.reduce", tuple(I.to_term(a) for a in args), ())
    items = list(items)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {}, node)
    return acc


@ext("builtins.isinstance")
def _isinstance(I, args, kw, node):
    v, c = args
    names = []
    for x in (I.seq_items(c) or [c]):
        names.append(x.name if isinstance(x, (Cls, Ext)) else I.to_term(x).key)
    short = [n.split(".")[-1] for n in names]
    if isinstance(v, NT) or isinstance(v, Obj):
        return TRUE if v.cls.name in short or (isinstance(v, NT) and "tuple" in short) else FALSE
    if isinstance(v, PyTuple):
        return TRUE if v.kind in short else FALSE
    if isinstance(v, (Func, Jit, Partial, Bound)):
        return FALSE
    if isinstance(v, IteVal):
        a = _isinstance(I, [v.a, c], kw, node)
        b = _isinstance(I, [v.b, c], kw, node)
        return I.merge(v.c, a, b)
    t = I.to_term(v)
    if t is NONE:
        return FALSE
    if t in I.opsyms:
        return TRUE if "Operator" in short else FALSE
    k = I.hooks.get("isinstance")
    if k is not None:
        r = k(I, t, short)
        if r is not None:
            return r
    if T.is_num(t):
        isint = t.args[0].denominator == 1
        return TRUE if ("int" in short and isint) or ("float" in short and not isint) else FALSE
    if t.op == "const" and t.args[0] == "str":
        return TRUE if "str" in short else FALSE
    if "Operator" in short and len(short) == 1:
        return FALSE
    if t.op in ("dim", "size") or t in I.int_syms:
        return TRUE if "int" in short else FALSE
    return mk("isinstance", t, tuple(sorted(short)))


@ext("builtins.hasattr")
def _hasattr(I, args, kw, node):
    v, n = args
    nt = I.to_term(n)
    if isinstance(v, NT) and nt.op == "const":
        return TRUE if nt.args[1] in v.fields or v.cls.lookup(nt.args[1]) is not None else FALSE
    if isinstance(v, Term) and v in I.opsyms and nt.op == "const":
        return TRUE if nt.args[1] in ("times", "trans", "shape") else FALSE
    t = I.to_term(v)
    if t.op == "sym" and t in T.CTX.shapes and not any(isinstance(d, tuple) for d in T.CTX.shapes[t]) and nt.op == "const":
        # an array: its attributes are those of ndarray
        return TRUE if nt.args[1] in NDARRAY else FALSE
    return mk("hasattr", t, nt)


NDARRAY = set("T all any argmax argmin argsort astype at choose clip compress conj conjugate copy cumprod cumsum diagonal dot dtype flatten "
              "imag item itemsize max mean min nbytes ndim nonzero prod ptp ravel real repeat reshape round searchsorted shape size sort "
              "squeeze std strides sum swapaxes take tobytes tolist trace transpose var view".split())


@ext("builtins.getattr")
def _getattr(I, args, kw, node):
    n = I.to_term(args[1])
    if n.op == "const":
        return I.getattr(args[0], n.args[1], node)
    return mk("call", "getattr", tuple(I.to_term(a) for a in args), ())


@ext("builtins.range")
def _range(I, args, kw, node):
    ta = [I.to_term(a) for a in args]
    if len(ta) == 2 and ta[0] is ZERO:
        ta = ta[1:]
    return mk("range", *ta)


@ext("builtins.slice")
def _slice(I, args, kw, node):
    ta = [I.to_term(a) for a in args]
    if len(ta) == 1:
        return prims.slc(NONE, ta[0])
    return prims.slc(*ta)


@ext("builtins.enumerate")
def _enumerate(I, args, kw, node):
    items = I.seq_items(args[0])
    if items is not None:
        return PyTuple([PyTuple([num(i), x]) for i, x in enumerate(items)], "list")
    return mk("enumerate", I.to_term(args[0]))


@ext("builtins.zip")
def _zip(I, args, kw, node):
    its = [I.seq_items(a) for a in args]
    if all(i is not None for i in its):
        return PyTuple([PyTuple(list(x)) for x in zip(*its)], "list")
    return mk("zip", tuple(I.to_term(a) for a in args))


@ext("builtins.list", "builtins.tuple")
def _list(I, args, kw, node):
    if not args:
        return PyTuple([], "list")
    items = I.iter_items(args[0])
    if items is not None:
        return PyTuple(items, "list")
    return args[0]


@ext("builtins.reversed")
def _rev(I, args, kw, node):
    items = I.iter_items(args[0])
    if items is not None:
        return PyTuple(list(reversed(items)), "list")
    return mk("call", "builtins.reversed", (I.to_term(args[0]),), ())


@ext("builtins.map")
def _map(I, args, kw, node):
    items = I.iter_items(args[1]) if len(args) == 2 else None
    if items is not None:
        return PyTuple([I.call(args[0], [x], {}, node) for x in items], "list")
    return mk("call", "builtins.map", tuple(I.to_term(a) for a in args), ())


@ext("builtins.sum")
def _bsum(I, args, kw, node):
    items = I.iter_items(args[0])
    if items is not None and len(args) == 1:
        r = ZERO
        for x in items:
            r = I.binop("Add", r, x, node)
        return r
    t = I.to_term(args[0])
    if t.op == "comp":
        return mk("bigsum", t.args[0], t.args[1], t.args[2], t.args[3])
    if T.rank(t) == 1 or not isinstance(args[0], PyTuple):
        return mk("bsum", t) if T.rank(t) != 1 else prims.sum0(t)
    return mk("bsum", t)


@ext("builtins.print", "jax.debug.callback", "jax.debug.print")
def _print(I, args, kw, node):
    I.event("effect", ("print", args), node)
    return NONE


def _anyall(name, f):
    def g(I, args, kw, node):
        items = I.seq_items(args[0]) if len(args) == 1 else None
        if items is None:
            return mk("call", "builtins." + name, tuple(I.to_term(a) for a in args), ())
        return f(*[I.truth(x) for x in items])
    return g


ext("builtins.any")(_anyall("any", T.or_))
ext("builtins.all")(_anyall("all", T.and_))


@ext("builtins.dict")
def _dict(I, args, kw, node):
    d = PyDict()
    for x in args:
        ps = I.seq_items(x)
        if isinstance(x, PyDict):
            d.merge(x)
        elif ps is not None and all(I.seq_items(q) is not None and len(I.seq_items(q)) == 2 for q in ps):
            d.merge(PyDict({I.to_term(I.seq_items(q)[0]): I.seq_items(q)[1] for q in ps}))
        else:
            d.merge(None)
    d.merge(PyDict({const(k): v for k, v in kw.items() if k != "**"}, "**" in kw))
    return d


@ext("importlib.import_module")
def _imp(I, args, kw, node):
    n = I.to_term(args[0])
    p = I.to_term(args[1]) if len(args) > 1 else I.to_term(kw["package"]) if "package" in kw else const("")
    if n.op == "const" and p.op == "const" and isinstance(n.args[1], str):
        n, p = n.args[1], p.args[1]
        return I.import_value(p + n if n.startswith(".") and p else n)
    return mk("call", "import_module", tuple(I.to_term(a) for a in args), ())


@ext("jax.tree_util.register_pytree_node")
def _reg(I, args, kw, node):
    return NONE


@ext("jax.experimental.sparse.BCOO.fromdense")
def _fromdense(I, args, kw, node):
    """storage format only: the entries are those of the dense array"""
    return args[0]


@ext("np.apply_along_axis")
def _aaa(I, args, kw, node):
    if len(args) == 3:
        x = I.to_term(args[2])
        sh = S.shape_of(x)
        ax = I.to_term(args[1])
        dim = None
        if sh is not None and T.is_num(ax) and -len(sh) <= int(ax.args[0]) < len(sh):
            dim = sh[int(ax.args[0])]
        bv = sym("α%d:%s" % (I.nest, "?" if dim is None else T.show(dim, 9)))
        if dim is not None:
            T.CTX.shapes[bv] = (dim,)
        I.nest += 1
        try:
            r = I.to_term(I.call(args[0], [bv], {}, node))
        finally:
            I.nest -= 1
        return mk("along", bv, r, ax, x)
    return mk("call", "np.apply_along_axis", tuple(I.to_term(a) for a in args), ())
