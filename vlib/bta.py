"""Binding-time analysis: which values are known while a function is traced for
compilation and which are traced, and which constructs need a known value."""
import ast

from . import loader
from . import names as N

NOC = object()


class V:
    pass


class St(V):
    """known at trace time; const if the value itself is known, par = parameter it came from"""
    def __init__(self, const=NOC, par=None):
        self.const, self.par = const, par

    def key(self):
        try:
            return ("S", self.const if self.const is not NOC and isinstance(self.const, (str, int, bool, float, type(None))) else "?")
        except Exception:  # noqa
            return ("S", "?")


class Tr(V):
    """traced"""
    def __init__(self, org=frozenset()):
        self.org = frozenset(org)

    def key(self):
        return ("T",)


class Tup(V):
    def __init__(self, items):
        self.items = list(items)

    def key(self):
        return ("U",) + tuple(x.key() for x in self.items)


class Rec(V):
    def __init__(self, mod, node, fields):
        self.mod, self.node, self.fields = mod, node, fields

    def key(self):
        return ("R", self.node.name) + tuple((k, v.key()) for k, v in sorted(self.fields.items()))


class Fn(V):
    def __init__(self, node, env, mod, bound=None, statics=None):
        self.node, self.env, self.mod, self.bound, self.statics = node, env, mod, bound, statics

    def key(self):
        return ("F", id(self.node))


class Par(V):
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def key(self):
        return ("P", self.f.key())


class Multi(V):
    """one of several callables"""
    def __init__(self, items):
        self.items = items

    def key(self):
        return ("M",) + tuple(sorted(str(x.key()) for x in self.items))


class Ext(V):
    def __init__(self, name):
        self.name = name

    def key(self):
        return ("E", self.name)


class ModV(V):
    def __init__(self, name):
        self.name = name

    def key(self):
        return ("O", self.name)


class Cls(V):
    def __init__(self, mod, node):
        self.mod, self.node = mod, node

    def key(self):
        return ("C", self.node.name)


class Meth(V):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ("A", self.obj.key(), self.name)


class Mapped(V):
    """vmap/grad/scan-like transformation of a callable"""
    def __init__(self, f):
        self.f = f

    def key(self):
        return ("X", self.f.key())


class Obj(V):
    def __init__(self, mod, node):
        self.mod, self.node, self.attrs = mod, node, {}

    def key(self):
        return ("B", id(self))


CALLABLE = (Fn, Par, Ext, Mapped, Cls)


def traced(v):
    if isinstance(v, Tr):
        return True
    if isinstance(v, Tup):
        return any(traced(x) for x in v.items)
    if isinstance(v, Rec):
        return any(traced(x) for x in v.fields.values())
    return False


def orgs(v):
    if isinstance(v, Tr):
        return v.org
    if isinstance(v, Tup):
        return frozenset().union(*[orgs(x) for x in v.items]) if v.items else frozenset()
    if isinstance(v, Rec):
        return frozenset().union(*[orgs(x) for x in v.fields.values()]) if v.fields else frozenset()
    return frozenset()


def lift(v):
    """what a loop/branch combinator hands to its body for an operand"""
    if isinstance(v, Tup):
        return Tup([lift(x) for x in v.items])
    if isinstance(v, Rec):
        return Rec(v.mod, v.node, {k: lift(x) for k, x in v.fields.items()})
    if isinstance(v, St):
        return v if v.const is None else Tr()
    return v


def join(a, b):
    if a is b:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Rec) and isinstance(b, Rec) and a.node is b.node:
        return Rec(a.mod, a.node, {k: join(a.fields[k], b.fields.get(k, a.fields[k])) for k in a.fields})
    if isinstance(a, Tr) and isinstance(b, Tr):
        return Tr(a.org | b.org)
    ca = isinstance(a, CALLABLE + (Multi,))
    cb = isinstance(b, CALLABLE + (Multi,))
    if ca and cb:
        items = (a.items if isinstance(a, Multi) else [a]) + (b.items if isinstance(b, Multi) else [b])
        out, seen = [], set()
        for x in items:
            if x.key() not in seen:
                seen.add(x.key())
                out.append(x)
        return out[0] if len(out) == 1 else Multi(out)
    if traced(a) or traced(b):
        # a traced value on one branch, something else on another
        if isinstance(a, Tr) or isinstance(b, Tr):
            if isinstance(a, St) or isinstance(b, St):
                return Maybe(orgs(a) | orgs(b), getattr(a, "par", None) or getattr(b, "par", None))
        return St()
    if isinstance(a, St) and isinstance(b, St):
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            return Maybe(getattr(a, "org", frozenset()) | getattr(b, "org", frozenset()), a.par or b.par)
        if a.const is not NOC and b.const is not NOC and a.const is b.const:
            return a
        return St(par=a.par if a.par == b.par else None)
    if isinstance(a, Rec) and isinstance(b, St) and b.const is None:
        return a
    if isinstance(b, Rec) and isinstance(a, St) and a.const is None:
        return b
    return St()


class Maybe(St):
    """known on some branches and traced on others: nothing is reported about it"""
    def __init__(self, org=frozenset(), par=None):
        St.__init__(self, par=par)
        self.org = org


class Env:
    def __init__(self, parent, mod, fn):
        self.parent, self.mod, self.fn = parent, mod, fn
        self.vars = {}
        self.glob = set()

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return None


class Sink:
    def __init__(self, mod, fn, line, msg, org):
        self.rel, self.fn, self.line, self.msg, self.org = mod.rel, fn, line, msg, org


class Stop(Exception):
    pass


class Ret(Exception):
    pass


ARRAY_STATIC = {"shape", "ndim", "dtype", "size", "nse", "itemsize", "nbytes", "weak_type", "sharding", "n_sparse", "n_dense", "n_batch", "unique_indices", "indices_sorted"}
STATIC_JNP = {"shape", "ndim", "size", "iscomplexobj", "isrealobj", "result_type", "promote_types", "issubdtype", "finfo", "iinfo", "dtype",
              "isscalar", "broadcast_shapes", "iscomplex_type", "can_cast"}
STATIC_NP = STATIC_JNP | {"isscalar", "float32", "float64"}
SHAPED = {"zeros": 0, "ones": 0, "empty": 0, "full": 0, "eye": None, "identity": 0, "tri": None, "reshape": 1, "broadcast_to": 1, "tile": 1,
          "arange": None, "indices": 0}
SIZED = {"nonzero", "flatnonzero", "argwhere", "unique", "setdiff1d", "intersect1d", "union1d", "extract", "compress"}
RANDSHAPE = {"normal": 1, "uniform": 1, "bernoulli": 2, "rademacher": 1, "split": 1, "gumbel": 1, "exponential": 1, "permutation": None, "choice": 2, "randint": 1,
             "multivariate_normal": 3, "beta": 3, "cauchy": 1, "gamma": 2, "laplace": 1, "truncated_normal": 3, "ball": None, "orthogonal": 1, "poisson": 2}


class BTA:
    MAXDEPTH = 22

    def __init__(self):
        self.sinks = []
        self.uses = {}             # parameter -> array-only uses
        self.inner = []            # inner jit applications
        self.trace = 0
        self.stack = []
        self.steps = 0
        self.mods = {}
        self.effects = []
        self.functions = set()
        self.suppress = 0
        self.memo = {}

    # ------------------------------------------------------------- report
    def sink(self, node, msg, v):
        if self.suppress:
            return
        mod, fn = self.stack[-1]
        s = Sink(mod, fn, getattr(node, "lineno", 0), msg, orgs(v))
        self.sinks.append(s)

    # ------------------------------------------------------------ modules
    def modenv(self, m):
        if m.name not in self.mods:
            self.mods[m.name] = Env(None, m, None)
        return self.mods[m.name]

    def modget(self, m, name):
        env = self.modenv(m)
        if name in env.vars:
            return env.vars[name]
        env.vars[name] = St()
        ent = m.get(name)
        ents = m.ns.get(name)
        if ent is None and ents and all(e[0] == "func" for e in ents):
            ent = ents[-1]
        if ent is None and ents and ents[-1][0] == "val" and ents[-1][1] is not None:
            ent = ents[-1]
        v = None
        if ent is not None:
            if ent[0] == "val" and name not in m.ns:
                r = None
                for s in reversed(m.stars):
                    mm = N.module(s)
                    if mm is not None and mm.has(name):
                        v = self.modget(mm, name)
                        break
            elif name not in m.ns:
                for s in reversed(m.stars):
                    mm = N.module(s)
                    if mm is not None and mm.has(name):
                        v = self.modget(mm, name)
                        break
            else:
                v = self.entry(m, ent, env, name)
        if v is None:
            if loader.find_module(m.name + "." + name) and ent is None:
                v = ModV(m.name + "." + name)
            else:
                v = St()
        env.vars[name] = v
        return v

    def entry(self, m, ent, env, name=None):
        k = ent[0]
        if k == "func":
            f = Fn(ent[1], env, m)
            return self.decorate(f, ent[1], env)
        if k == "class":
            return Cls(m, ent[1])
        if k == "mod":
            return self.modv(ent[1])
        if k == "from":
            mm = N.module(ent[1])
            if mm is not None:
                if mm.has(ent[2]) is False:
                    return St()
                if ent[2] in mm.ns or mm.stars:
                    return self.modget(mm, ent[2])
                return self.modv(ent[1] + "." + ent[2])
            if loader.find_module(ent[1] + "." + ent[2]):
                return self.modv(ent[1] + "." + ent[2])
            return Ext(norm_ext(ent[1] + "." + ent[2]))
        if k == "val":
            if ent[1] is None:
                return St()
            saved, self.trace = self.trace, 0
            self.stack.append((m, "<module>"))
            ents = m.ns.get(name) or []
            if len(ents) > 1:
                # name = f(name): the earlier binding feeds the later one
                prev = self.entry(m, ents[-2], env, None)
                env.vars[name] = prev
            try:
                return self.eval(ent[1], env)
            finally:
                self.stack.pop()
                self.trace = saved
        return St()

    def modv(self, name):
        if loader.find_module(name):
            return ModV(name)
        return Ext(norm_ext(name))

    def decorate(self, f, node, env):
        v = f
        for d in reversed(node.decorator_list):
            dv = self.eval(d, env) if not isinstance(d, ast.Name) or d.id not in ("property", "staticmethod", "classmethod") else None
            if dv is None:
                continue
            v = self.call(dv, [v], {}, d, env)
        return v

    # ---------------------------------------------------------- functions
    def call_fn(self, f, args, kw, node, env=None):
        if f.bound is not None:
            args = [f.bound] + list(args)
        n = f.node
        key = (id(n), id(f.env), tuple(a.key() for a in args), tuple(sorted((k, v.key()) for k, v in kw.items() if k != "**")), bool(self.trace))
        self.steps += 1
        if len(self.stack) > self.MAXDEPTH or self.steps > 60000 or any(k == key for k in self.active):
            return self.anyresult(args, kw)
        self.active.append(key)
        e = Env(f.env, f.mod, n)
        self.stack.append((f.mod, getattr(n, "name", "<lambda>")))
        try:
            self.bind(e, n, args, kw, f)
            self.functions.add((f.mod.rel, getattr(n, "name", "<lambda>"), n.lineno))
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, e)
            rets = []
            self.block(n.body, e, rets)
            if not rets:
                return St(None)
            v = rets[0]
            for x in rets[1:]:
                v = join(v, x)
            return v
        finally:
            self.stack.pop()
            self.active.pop()

    active = []

    def bind(self, e, n, args, kw, f):
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        for p, v in zip(pos, args):
            e.vars[p] = v
        if a.vararg:
            e.vars[a.vararg.arg] = Tup(args[len(pos):])
        names = pos + [x.arg for x in a.kwonlyargs]
        extra = False
        for k, v in kw.items():
            if k in names:
                e.vars[k] = v
            else:
                extra = True
        if a.kwarg:
            e.vars[a.kwarg.arg] = St()
        nd = len(a.defaults)
        saved, self.trace = self.trace, 0
        for p, d in list(zip(pos[len(pos) - nd:], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in e.vars:
                e.vars[p] = self.eval(d, f.env)
        self.trace = saved
        for p in names:
            if p not in e.vars:
                e.vars[p] = St()

    def anyresult(self, args, kw):
        o = frozenset()
        t = bool(self.trace)
        for v in list(args) + list(kw.values()):
            if traced(v):
                t = True
                o |= orgs(v)
        return Maybe(o) if t else St()

    # --------------------------------------------------------- statements
    def block(self, body, env, rets):
        """False when control cannot fall through"""
        for st in body:
            if not self.stmt(st, env, rets):
                return False
        return True

    def stmt(self, st, env, rets):
        self.steps += 1
        if isinstance(st, ast.Return):
            rets.append(self.eval(st.value, env) if st.value is not None else St(None))
            return False
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.suppress += 1
                self.eval(st.exc, env)
                self.suppress -= 1
            return False
        if isinstance(st, (ast.Break, ast.Continue)):
            return False
        if isinstance(st, N.FUNCS):
            f = Fn(st, env, env.mod)
            env.vars[st.name] = f
            env.vars[st.name] = self.decorate(f, st, env)
            return True
        if isinstance(st, ast.ClassDef):
            env.vars[st.name] = Cls(env.mod, st)
            return True
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            sc = N.Scope(env.mod, None, None)
            sc.collect([st])
            for k, ents in sc.defs.items():
                env.vars[k] = self.entry(env.mod, ents[0], self.modenv(env.mod))
            return True
        if isinstance(st, ast.Assign):
            v = self.eval(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
            return True
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.eval(st.value, env), env)
            return True
        if isinstance(st, ast.AugAssign):
            cur = self.eval_load(st.target, env)
            v = self.binop(cur, self.eval(st.value, env), st)
            self.assign(st.target, v, env)
            return True
        if isinstance(st, ast.Expr):
            self.eval(st.value, env)
            return True
        if isinstance(st, ast.If):
            return self.ifstmt(st, env, rets)
        if isinstance(st, ast.While):
            for _ in range(2):
                t = self.eval(st.test, env)
                self.need(st.test, t, "while loop condition")
                before = dict(env.vars)
                self.block(st.body, env, rets)
                self.merge(env, before)
            return True
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.eval(st.iter, env)
            if isinstance(it, Tup) and it.items and len(it.items) <= 8:
                for x in it.items:
                    self.assign(st.target, x, env)
                    before = dict(env.vars)
                    self.block(st.body, env, rets)
                    self.merge(env, before)
            else:
                for _ in range(2):
                    self.assign(st.target, self.element(it), env)
                    before = dict(env.vars)
                    self.block(st.body, env, rets)
                    self.merge(env, before)
            self.block(st.orelse, env, rets)
            return True
        if isinstance(st, ast.Assert):
            t = self.eval(st.test, env)
            self.need(st.test, t, "assertion")
            return True
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.eval(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, St(), env)
            return self.block(st.body, env, rets)
        if isinstance(st, ast.Try):
            self.suppress += 1 if st.handlers else 0
            ok = self.block(st.body, env, rets)
            self.suppress -= 1 if st.handlers else 0
            for h in st.handlers:
                before = dict(env.vars)
                if h.name:
                    env.vars[h.name] = St()
                ok = self.block(h.body, env, rets) or ok
                self.merge(env, before)
            self.block(st.orelse, env, rets)
            self.block(st.finalbody, env, rets)
            return ok
        if isinstance(st, ast.Global):
            env.glob |= set(st.names)
        return True

    def merge(self, env, before):
        for k, v in before.items():
            if k in env.vars:
                env.vars[k] = join(v, env.vars[k])
            else:
                env.vars[k] = v

    def ifstmt(self, st, env, rets):
        t = self.eval(st.test, env)
        c = self.truth(t)
        if c is None:
            self.need(st.test, t, "if statement")
        if c is True:
            return self.block(st.body, env, rets)
        if c is False:
            return self.block(st.orelse, env, rets)
        before = dict(env.vars)
        ref = self.refine(st.test, env)
        if ref:
            env.vars.update(ref[0])
        a = self.block(st.body, env, rets)
        va = env.vars
        env.vars = dict(before)
        if ref:
            env.vars.update(ref[1])
        b = self.block(st.orelse, env, rets)
        vb = env.vars
        if a and b:
            out = {}
            for k in set(va) | set(vb):
                out[k] = join(va[k], vb[k]) if k in va and k in vb else va.get(k, vb.get(k))
            env.vars = out
            return True
        env.vars = va if a else vb
        return a or b

    def refine(self, test, env):
        """bindings implied by `x is None` / `x is not None`"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) \
                and test.comparators[0].value is None and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
            nm = test.left.id
            e = env.get(nm)
            if isinstance(e, St) and nm in env.vars:
                a = {nm: St(None)}
                b = {}
                return (a, b) if isinstance(test.ops[0], ast.Is) else (b, a)
        return None

    def truth(self, v):
        if isinstance(v, St) and v.const is not NOC:
            try:
                return bool(v.const)
            except Exception:  # noqa
                return None
        if isinstance(v, CALLABLE):
            return True
        if isinstance(v, Tup):
            return bool(v.items)
        return None

    def need(self, node, v, what):
        if isinstance(v, Tr):
            self.sink(node, "%s needs the value of %s" % (what, show(node)), v)

    def need_deep(self, node, v, what):
        if isinstance(v, Tup):
            for x in v.items:
                self.need_deep(node, x, what)
        else:
            self.need(node, v, what)

    # --------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.glob:
                self.effects.append((self.stack[-1], t.lineno, "global %s assigned" % t.id, bool(self.trace)))
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Rec):
                v = Tup(list(v.fields.values()))
            if isinstance(v, Tup) and len(v.items) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, env)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.element(v), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v if t.attr not in o.attrs else join(o.attrs[t.attr], v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.eval(t.slice, env)
            if isinstance(o, Tr):
                self.sink(t, "in-place assignment into the traced array %s" % show(t.value), o)
            elif isinstance(t.value, ast.Name) and traced(v):
                for e in chain(env):
                    if t.value.id in e.vars:
                        if not isinstance(o, (Tup, Rec)):
                            e.vars[t.value.id] = Maybe(orgs(v))
                        break

    def element(self, v):
        if isinstance(v, Tr):
            return v
        if isinstance(v, Tup):
            if not v.items:
                return St()
            r = v.items[0]
            for x in v.items[1:]:
                r = join(r, x)
            return r
        if isinstance(v, Maybe):
            return v
        return St()

    # --------------------------------------------------------- expressions
    def eval_load(self, t, env):
        return self.eval(t, env)

    def eval(self, e, env):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.eval(c, env)
            return St()
        return m(e, env)

    def e_Constant(self, e, env):
        return St(e.value)

    def e_Name(self, e, env):
        v = env.get(e.id)
        if v is not None:
            return v
        if e.id in env.mod.ns or N.star_has(env.mod, e.id) and e.id not in N.BUILTINS:
            return self.modget(env.mod, e.id)
        if e.id in N.BUILTINS:
            return Ext("builtins." + e.id)
        return St()

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env.vars[e.target.id] = v
        return v

    def e_Lambda(self, e, env):
        return Fn(e, env, env.mod)

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                if isinstance(v, Tup):
                    out += v.items
                else:
                    return Maybe(orgs(v)) if traced(v) else St()
            else:
                out.append(self.eval(x, env))
        return Tup(out)

    e_List = e_Tuple

    def e_Set(self, e, env):
        for x in e.elts:
            self.eval(x, env)
        return St()

    def e_Dict(self, e, env):
        for k, v in zip(e.keys, e.values):
            if k is not None:
                self.eval(k, env)
            self.eval(v, env)
        return St()

    def comp(self, e, env):
        en = Env(env, env.mod, env.fn)
        for g in e.generators:
            it = self.eval(g.iter, en)
            self.assign(g.target, self.element(it), en)
            for c in g.ifs:
                self.need(c, self.eval(c, en), "comprehension filter")
        if isinstance(e, ast.DictComp):
            self.eval(e.key, en)
            self.eval(e.value, en)
            return St()
        v = self.eval(e.elt, en)
        if isinstance(v, CALLABLE):
            return Multi([v]) if False else Seq(v)
        return Seq(v) if not isinstance(v, St) or isinstance(v, Maybe) else St()

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_IfExp(self, e, env):
        t = self.eval(e.test, env)
        c = self.truth(t)
        if c is None:
            self.need(e.test, t, "conditional expression")
        if c is True:
            return self.eval(e.body, env)
        if c is False:
            return self.eval(e.orelse, env)
        return join(self.eval(e.body, env), self.eval(e.orelse, env))

    def e_BoolOp(self, e, env):
        vs = []
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i < len(e.values) - 1:
                self.need(x, v, "boolean operator")
            c = self.truth(v)
            if c is True and not is_and:
                if not vs:
                    return v
                vs.append(v)
                break
            if c is False and is_and:
                if not vs:
                    return v
                vs.append(v)
                break
            if c is not None and i < len(e.values) - 1:
                continue
            vs.append(v)
        r = vs[0]
        for x in vs[1:]:
            r = join(r, x)
        return r

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            if c is not None:
                return St(not c)
            self.need(e.operand, v, "not")
            return St()
        if isinstance(v, St) and v.const is not NOC and isinstance(v.const, (int, float)) and isinstance(e.op, ast.USub):
            return St(-v.const)
        return v if traced(v) or isinstance(v, Maybe) else St()

    def binop(self, a, b, node):
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            if traced(a) or traced(b):
                return Tr(orgs(a) | orgs(b))
            return Maybe()
        if traced(a) or traced(b):
            return Tr(orgs(a) | orgs(b))
        return St()

    def e_BinOp(self, e, env):
        return self.arith(self.eval(e.left, env), self.eval(e.right, env), e)

    def arith(self, a, b, e):
        if isinstance(e.op, ast.Mod) and isinstance(a, St) and isinstance(a.const, str):
            return St()
        if isinstance(e.op, ast.Mult) and (isinstance(a, Tup) or isinstance(b, Tup)):
            t, k = (a, b) if isinstance(a, Tup) else (b, a)
            if isinstance(k, St) and isinstance(k.const, int) and 0 <= k.const * len(t.items) <= 16:
                return Tup(t.items * k.const)
            if not isinstance(k, Tr):
                return Seq(self.element(t)) if t.items else St()
        return self.binop(a, b, e)

    def e_Compare(self, e, env):
        vs = [self.eval(e.left, env)] + [self.eval(c, env) for c in e.comparators]
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and len(vs) == 2:
            a, b = vs
            if isinstance(b, St) and b.const is None:
                if isinstance(a, St) and not isinstance(a, Maybe):
                    if a.const is not NOC:
                        r = a.const is None
                        return St(r if isinstance(e.ops[0], ast.Is) else not r)
                    return St()
                if isinstance(a, Maybe):
                    return St()
                return St(isinstance(e.ops[0], ast.IsNot))
            return St()
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in e.ops):
            for v in vs:
                if isinstance(v, Tr):
                    self.sink(e, "membership test needs the value of %s" % show(e), v)
            return St()
        if any(isinstance(v, Maybe) for v in vs):
            return Maybe()
        if any(isinstance(v, Tr) for v in vs):
            if len(vs) > 2:
                self.sink(e, "chained comparison needs the value of %s" % show(e), vs[0])
            return Tr(frozenset().union(*[orgs(v) for v in vs]))
        if any(traced(v) for v in vs):
            return Maybe()
        if len(vs) == 2 and all(isinstance(v, St) and v.const is not NOC for v in vs):
            try:
                a, b = vs[0].const, vs[1].const
                f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}.get(type(e.ops[0]))
                if f:
                    return St(bool(f()))
            except Exception:  # noqa
                pass
        return St()

    def e_JoinedStr(self, e, env):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.eval(x.value, env)
                if x.format_spec is not None and isinstance(v, Tr):
                    self.sink(e, "number formatting needs the value of %s" % show(x.value), v)
        return St()

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.need(x, self.eval(x, env), "slice bound")
        return St()

    def e_Subscript(self, e, env):
        return self.subscript(self.eval(e.value, env), e, env)

    def subscript(self, o, e, env):
        if isinstance(o, Tr) and self.is_mask(e.slice, env):
            self.sink(e, "boolean-mask indexing needs the value of %s" % show(e.slice), o)
        i = self.eval_index(e.slice, env, o)
        if isinstance(o, (Tup, Rec)):
            items = o.items if isinstance(o, Tup) else list(o.fields.values())
            if isinstance(i, St) and isinstance(i.const, int) and not isinstance(i.const, bool) and -len(items) <= i.const < len(items):
                return items[i.const]
            if isinstance(i, Tr):
                self.sink(e, "indexing a Python sequence needs the value of %s" % show(e.slice), i)
            if isinstance(e.slice, ast.Slice):
                b = [self.eval(x, env) if x is not None else St(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if all(isinstance(x, St) and x.const is not NOC for x in b):
                    return Tup(items[slice(*[x.const for x in b])])
                return Seq(self.element(Tup(items))) if items else St()
            return self.element(Tup(items))
        if isinstance(o, Seq):
            return o if isinstance(e.slice, ast.Slice) else o.items[0]
        if isinstance(o, Meth) and o.name == "at":
            return Meth(o, "idx")
        if isinstance(o, Maybe):
            return o
        if isinstance(o, Tr):
            return Tr(o.org | orgs(i))
        if isinstance(i, Tr):
            # concrete array indexed by a traced index; a python list would fail, but the type is unknown
            return Tr(i.org)
        return St()

    def eval_index(self, s, env, o):
        if isinstance(s, ast.Tuple):
            vs = [self.eval(x, env) for x in s.elts]
            t = [v for v in vs if traced(v)]
            return Tr(frozenset().union(*[orgs(v) for v in t])) if t else St()
        return self.eval(s, env)

    def is_mask(self, s, env):
        """an index that is certainly a boolean array: comparison of traced values"""
        if isinstance(s, ast.Compare) and not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in s.ops):
            self.suppress += 1
            v = self.eval(s, env)
            self.suppress -= 1
            return isinstance(v, Tr)
        return False

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, e)

    def getattr(self, o, a, e):
        if isinstance(o, ModV):
            m = N.module(o.name)
            if m is None:
                return self.modv(o.name + "." + a)
            if a in m.ns or m.stars:
                if a not in m.ns and not N.star_has(m, a) or (a not in m.ns and loader.find_module(o.name + "." + a)):
                    return self.modv(o.name + "." + a) if loader.find_module(o.name + "." + a) else St()
                return self.modget(m, a)
            return self.modv(o.name + "." + a) if loader.find_module(o.name + "." + a) else St()
        if isinstance(o, Ext):
            n = norm_ext(o.name + "." + a)
            if n in CONSTS:
                return St()
            return Ext(n)
        if isinstance(o, Tr):
            if a in ARRAY_STATIC:
                return Dims() if a == "shape" else St()
            if a in ("T", "mT", "real", "imag", "flat"):
                return Tr(o.org)
            if a in ARRAYMETH or a in SINKMETH:
                return Meth(o, a)
            return Tr(o.org)           # field of a record passed as a traced argument
        if isinstance(o, Rec):
            if a in o.fields:
                return o.fields[a]
            for st in o.node.body:
                if isinstance(st, N.FUNCS) and st.name == a:
                    if any(isinstance(d, ast.Name) and d.id == "property" for d in st.decorator_list):
                        return self.call_fn(Fn(st, self.modenv(o.mod), o.mod, o), [], {}, e)
                    return Fn(st, self.modenv(o.mod), o.mod, o)
            return Meth(o, a)
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            for st in o.node.body:
                if isinstance(st, N.FUNCS) and st.name == a:
                    if any(isinstance(d, ast.Name) and d.id == "property" for d in st.decorator_list):
                        return self.call_fn(Fn(st, self.modenv(o.mod), o.mod, o), [], {}, e)
                    return Fn(st, self.modenv(o.mod), o.mod, o)
            return St()
        if isinstance(o, Cls):
            for st in o.node.body:
                if isinstance(st, N.FUNCS) and st.name == a:
                    return Fn(st, self.modenv(o.mod), o.mod)
            return St()
        if isinstance(o, Meth) and isinstance(o.obj, Tr):
            return Meth(o, a)
        if isinstance(o, (Tup, Seq)):
            return Meth(o, a)
        if isinstance(o, Maybe):
            return o if a not in ARRAY_STATIC else St()
        if isinstance(o, St):
            if o.par and a in ("at", "T"):
                self.use(o.par, e, ".%s" % a)
            return SMeth(a, o)
        return St()

    def use(self, par, node, how):
        mod, fn = self.stack[-1]
        self.uses.setdefault(par, []).append((mod.rel, fn, getattr(node, "lineno", 0), how))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kw = [], {}
        unknown_star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Tup) and not isinstance(v, Seq):
                    args += v.items
                else:
                    unknown_star = True
                    args.append(self.element(v))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg:
                kw[k.arg] = v
            else:
                unknown_star = True
        if unknown_star and isinstance(f, Fn):
            return self.anyresult(args, kw)
        return self.call(f, args, kw, e, env)

    def call(self, f, args, kw, node, env):
        if isinstance(f, Fn):
            if f.statics is not None:
                return self.jitcall(f, args, kw, node, env)
            return self.call_fn(f, args, kw, node)
        if isinstance(f, Par):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k, node, env)
        if isinstance(f, Multi):
            r = None
            for x in f.items:
                v = self.call(x, args, kw, node, env)
                r = v if r is None else join(r, v)
            return r
        if isinstance(f, Mapped):
            self.trace += 1
            try:
                r = self.call(f.f, [lift(a) for a in args], {k: lift(v) for k, v in kw.items()}, node, env)
            finally:
                self.trace -= 1
            r = lift(r)
            return r if self.trace or any(traced(a) for a in args) else conc(r)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, node)
        if isinstance(f, Ext):
            return self.ext(f.name, args, kw, node, env)
        if isinstance(f, Meth):
            return self.method(f, args, kw, node, env)
        if isinstance(f, Tr):
            self.sink(node, "a traced value is called: %s" % show(node), f)
            return Maybe()
        if isinstance(f, SMeth):
            return self.smeth(f, args, kw, node)
        # unknown static callable
        for a in args:
            if isinstance(a, St) and a.par and isinstance(node, ast.Call):
                pass
        if any(traced(a) for a in list(args) + list(kw.values())):
            return Maybe(frozenset().union(*[orgs(a) for a in args] or [frozenset()])) if not self.trace else TrMaybe()
        return TrMaybe() if self.trace else St()

    def smeth(self, f, args, kw, node):
        if f.name in ("times", "trans"):
            for a in args:
                if isinstance(a, St) and a.par:
                    self.use(a.par, node, "argument of .%s" % f.name)
        t = [a for a in list(args) + list(kw.values()) if traced(a)]
        if f.name in ("times", "trans", "__matmul__", "rmatvec", "matvec") and (t or self.trace):
            return Tr(frozenset().union(*[orgs(a) for a in t]) if t else frozenset())
        if t or self.trace:
            return Maybe()
        return St()

    def construct(self, f, args, kw, node):
        if is_rec(f.mod, f.node):
            fields, req = {}, []
            names = [st.target.id for st in f.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
            for st in f.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    saved, self.trace = self.trace, 0
                    fields[st.target.id] = self.eval(st.value, self.modenv(f.mod)) if st.value is not None else St()
                    self.trace = saved
            for n, v in zip(names, args):
                fields[n] = v
            for k, v in kw.items():
                fields[k] = v
            return Rec(f.mod, f.node, fields)
        o = Obj(f.mod, f.node)
        for st in f.node.body:
            if isinstance(st, N.FUNCS) and st.name == "__init__":
                self.call_fn(Fn(st, self.modenv(f.mod), f.mod, o), args, kw, node)
        return o

    def jitcall(self, f, args, kw, node, env):
        """application of a compiled function inside the analysed code"""
        nums, nms = f.statics
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if f.bound is not None:
            pos = pos[1:]
        args = list(args)
        out = []
        for i, v in enumerate(args):
            st = i in nums or (i < len(pos) and pos[i] in nms)
            if st:
                if isinstance(v, Tr):
                    self.sink(node, "compile-time argument %s of %s receives a traced value" % (pos[i] if i < len(pos) else i, f.node.name), v)
                out.append(v)
            else:
                out.append(lift(v))
        k2 = {}
        for k, v in kw.items():
            st = k in nms or (k in pos and pos.index(k) in nums)
            if st:
                if isinstance(v, Tr):
                    self.sink(node, "compile-time argument %s of %s receives a traced value" % (k, f.node.name), v)
                k2[k] = v
            else:
                k2[k] = lift(v)
        g = Fn(f.node, f.env, f.mod, f.bound)
        was = self.trace
        self.trace += 1
        try:
            r = self.call_fn(g, out, k2, node)
        finally:
            self.trace -= 1
        r = lift(r)
        return r if was else conc(r)

    def method(self, f, args, kw, node, env):
        base = f
        while isinstance(base, Meth):
            base = base.obj
        if isinstance(base, Rec):
            if f.name == "_replace":
                d = dict(base.fields)
                d.update(kw)
                return Rec(base.mod, base.node, d)
            if f.name == "_asdict":
                return St()
            return self.anyresult(args, kw)
        if isinstance(base, Tr):
            if f.obj is base:
                if f.name in ("item", "tolist", "to_py", "__float__", "__int__"):
                    self.sink(node, ".%s() needs the value of %s" % (f.name, show(node.func.value)), base)
                    return St()
                if f.name in ("reshape", "resize", "broadcast_to"):
                    for a in args:
                        self.need_deep(node, a, "array shape")
                if f.name in ("times", "trans", "shape"):
                    self.sink(node, "operator %s is traced although it is not an array" % show(node.func.value), base)
                    return Tr(base.org)
                self.axis(args, kw, node)
                if f.name not in ARRAYMETH:
                    # field or entry of a record passed as a traced argument
                    self.sink(node, "a traced value is called: %s" % show(node), base) if f.name in FUNFIELDS else None
            o = base.org | frozenset().union(*[orgs(a) for a in args]) if args else base.org
            return Tr(o)
        if isinstance(base, (Tup, Seq)):
            if f.name == "append" and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name):
                nm = node.func.value.id
                for e in chain(env):
                    if nm in e.vars:
                        cur = e.vars[nm]
                        if e is not env and self.trace:
                            self.effects.append((self.stack[-1], node.lineno, "append to %s of the enclosing function" % nm, True))
                        e.vars[nm] = Seq(join(self.element(cur), args[0]) if cur.items else args[0])
                        break
                return St(None)
            return self.element(base) if f.name == "pop" else St()
        return self.anyresult(args, kw)

    def axis(self, args, kw, node):
        for k in ("axis", "axes", "ord", "keepdims", "shape", "size", "dtype", "k", "num", "length", "total_repeat_length", "n", "mode", "indices_or_sections"):
            if k in ("k", "n", "num", "ord", "mode", "indices_or_sections"):
                continue
            if k in kw:
                self.need_deep(node, kw[k], "%s=" % k)

    def results(self, args, kw):
        if self.trace or any(traced(a) for a in list(args) + list(kw.values())):
            o = frozenset()
            for a in list(args) + list(kw.values()):
                o |= orgs(a)
            return Tr(o)
        if any(isinstance(a, Maybe) for a in list(args) + list(kw.values())):
            return Maybe()
        return St()

    def ext(self, name, args, kw, node, env):
        last = name.rsplit(".", 1)[-1]
        if name.startswith("builtins."):
            return self.builtin(last, args, kw, node, env)
        if name in ("jax.jit", "jax.api.jit"):
            if not args:
                return Ext("jax.jit")
            return self.mkjit(args[0], kw, node)
        if name == "functools.partial":
            return Par(args[0], args[1:], kw) if args else St()
        if name in ("functools.wraps",):
            return Ext("vp.identity")
        if name == "vp.identity":
            return args[0]
        if name in ("jax.vmap", "jax.grad", "jax.value_and_grad", "jax.jacobian", "jax.linearize", "jax.pmap", "jax.checkpoint", "jax.numpy.vectorize", "jax.jacfwd", "jax.jacrev", "jax.hessian"):
            return Mapped(args[0]) if args else Ext("vp.identity")
        if name == "jax.lax.while_loop" and len(args) >= 3:
            return self.loop([(args[0], None), (args[1], "state")], args[2], node, env)
        if name == "jax.lax.fori_loop" and len(args) >= 4:
            s = args[3]
            was = self.trace
            self.trace += 1
            s = lift(s)
            i = Tr() if True else St()
            for _ in range(3):
                r = lift(self.call(args[2], [i, s], {}, node, env))
                n = join(s, r)
                if n.key() == s.key():
                    break
                s = n
            self.trace -= 1
            return s if was else conc(s)
        if name == "jax.lax.scan" and len(args) >= 2:
            xs = lift(args[2]) if len(args) > 2 else lift(kw.get("xs", St(None)))
            if len(args) > 3 or "length" in kw:
                self.need(node, args[3] if len(args) > 3 else kw["length"], "scan length")
            was = self.trace
            self.trace += 1
            s = lift(args[1])
            ys = Tr()
            for _ in range(3):
                r = self.call(args[0], [s, lift(xs)], {}, node, env)
                if isinstance(r, Tup) and len(r.items) == 2:
                    n, ys = join(s, lift(r.items[0])), lift(r.items[1])
                else:
                    n = s
                if n.key() == s.key():
                    break
                s = n
            self.trace -= 1
            r = Tup([s, ys])
            return r if was else conc(r)
        if name == "jax.lax.map" and len(args) == 2:
            was = self.trace
            self.trace += 1
            r = lift(self.call(args[0], [lift(args[1])], {}, node, env))
            self.trace -= 1
            return r if was else conc(r)
        if name == "jax.lax.cond" and len(args) >= 3:
            ops = [lift(a) for a in args[3:]]
            if "operand" in kw:
                ops.append(lift(kw["operand"]))
            was = self.trace
            self.trace += 1
            try:
                a = lift(self.call(args[1], ops, {}, node, env))
                b = lift(self.call(args[2], ops, {}, node, env))
            finally:
                self.trace -= 1
            r = join(a, b)
            return r if was else conc(r)
        if name == "jax.lax.switch" and len(args) >= 2:
            ops = [lift(a) for a in args[2:]]
            fs = args[1].items if isinstance(args[1], (Tup,)) else []
            was = self.trace
            self.trace += 1
            r = None
            for f in fs:
                v = lift(self.call(f, ops, {}, node, env))
                r = v if r is None else join(r, v)
            self.trace -= 1
            r = r if r is not None else Tr()
            return r if was else conc(r)
        if name in ("jax.debug.callback", "jax.experimental.host_callback.call", "jax.pure_callback", "jax.experimental.io_callback"):
            if args and isinstance(args[0], Tr):
                self.sink(node, "the callback %s is traced although it is a function" % show(node.args[0]), args[0])
            return St(None)
        if name in ("jax.tree_util.tree_map", "jax.tree_map"):
            return self.results(args[1:], kw)
        if name.startswith("jax.numpy.") or name.startswith("jax.lax.") or name.startswith("jax.scipy.") or name.startswith("jax.nn.") or name.startswith("jax.random.") \
                or name.startswith("jax.ops.") or name.startswith("jax.experimental.sparse") or name.startswith("jax.image."):
            return self.jaxfn(name, last, args, kw, node, env)
        if name.startswith("numpy.") or name.startswith("scipy.") or name.startswith("math."):
            if last in STATIC_NP:
                return St()
            for a in list(args) + list(kw.values()):
                if isinstance(a, Tr):
                    self.sink(node, "%s needs the value of its argument in %s" % (name, show(node)), a)
                    break
            return St()
        if any(isinstance(a, Tr) for a in args):
            return Maybe()
        return St() if not self.trace else Maybe()

    def jaxfn(self, name, last, args, kw, node, env):
        if name.startswith("jax.numpy.") and last in STATIC_JNP:
            return St()
        if last in SHAPED and name.count(".") == 2:
            i = SHAPED[last]
            xs = args if i is None else args[i:i + 1]
            for a in xs:
                self.need_deep(node, a, "array shape")
            for k in ("shape", "N", "M", "n", "newshape", "reps", "stop"):
                if k in kw:
                    self.need_deep(node, kw[k], "array shape")
        if last == "linspace" and len(args) > 2:
            self.need(node, args[2], "array shape")
        if name.startswith("jax.random.") and last in RANDSHAPE:
            i = RANDSHAPE[last]
            if i is not None and len(args) > i:
                self.need_deep(node, args[i], "array shape")
        if last in SIZED and "size" not in kw and (self.trace or any(isinstance(a, Tr) for a in args)):
            self.sink(node, "the size of the result of %s depends on traced values" % show(node), Tr(frozenset().union(*[orgs(a) for a in args]) if args else frozenset()))
        if last == "where" and len(args) == 1 and "size" not in kw and isinstance(args[0], Tr):
            self.sink(node, "the size of the result of %s depends on traced values" % show(node), args[0])
        if last in ("top_k", "dynamic_slice") and len(args) > 1:
            if last == "top_k":
                self.need(node, args[1], "number of entries")
            elif len(args) > 2:
                self.need_deep(node, args[2], "slice size")
        if last in ("dynamic_slice_in_dim",) and len(args) > 2:
            self.need(node, args[2], "slice size")
        if last in ("norm", "vdot", "dot", "zeros_like", "ones_like", "full_like", "empty_like"):
            for a in args[:2] if last in ("vdot", "dot") else args[:1]:
                if isinstance(a, St) and a.par:
                    self.use(a.par, node, "argument of %s" % last)
        self.axis(args, kw, node)
        if last == "shape":
            return Dims()
        if last in ("svd", "qr", "eigh", "eig", "top_k", "slogdet", "meshgrid", "unique", "divmod", "modf", "frexp", "histogram", "lstsq"):
            r = self.results(args, kw)
            return Many(r.org) if isinstance(r, Tr) else r
        if last == "bcast_shapes":
            return St()
        return self.results(args, kw)

    def loop(self, fs, init, node, env):
        was = self.trace
        self.trace += 1
        s = lift(init)
        try:
            for _ in range(3):
                n = s
                for f, k in fs:
                    r = self.call(f, [s], {}, node, env)
                    if k:
                        n = join(s, lift(r))
                if n.key() == s.key():
                    break
                s = n
        finally:
            self.trace -= 1
        return s if was else conc(s)

    def mkjit(self, f, kw, node):
        nums, nms = statics(kw)
        g = f
        if isinstance(g, Fn):
            n = g.node
            pos = [x.arg for x in n.args.posonlyargs + n.args.args]
            if g.bound is not None:
                pos = pos[1:]
            full = set(nms) | {pos[i] for i in nums if -len(pos) <= i < len(pos)}
            nn = set(i if i >= 0 else i + len(pos) for i in nums) | {pos.index(x) for x in nms if x in pos}
            return Fn(g.node, g.env, g.mod, g.bound, (nn, full))
        return Mapped(f)

    def builtin(self, n, args, kw, node, env):
        if n in ("int", "float", "bool", "complex", "range", "round") and n != "round":
            for a in args:
                if isinstance(a, Tr):
                    self.sink(node, "%s() needs the value of %s" % (n, show(node.args[0])), a)
            if n == "range":
                return St()
            return St() if not any(isinstance(a, Maybe) for a in args) else Maybe()
        if n in ("min", "max") and len(args) > 1:
            for a in args:
                if isinstance(a, Tr):
                    self.sink(node, "%s() compares the traced value in %s" % (n, show(node)), a)
                    break
            return St() if not any(isinstance(a, Maybe) for a in args) else Maybe()
        if n in ("min", "max", "any", "all", "sorted") and args and isinstance(args[0], Tr):
            self.sink(node, "%s() needs the value of %s" % (n, show(node.args[0])), args[0])
            return St()
        if n in ("min", "max", "any", "all", "sorted") and args and isinstance(args[0], (Tup,)) and any(isinstance(x, Tr) for x in args[0].items):
            self.sink(node, "%s() compares traced values in %s" % (n, show(node)), args[0])
            return St()
        if n == "print":
            self.effects.append((self.stack[-1], getattr(node, "lineno", 0), "print", bool(self.trace)))
            return St(None)
        if n in ("abs", "sum", "pow", "round", "divmod"):
            return self.results(args, kw) if any(traced(a) for a in args) else (Maybe() if any(isinstance(a, Maybe) for a in args) else St())
        if n in ("tuple", "list", "reversed"):
            if not args:
                return Tup([])
            a = args[0]
            if isinstance(a, Rec):
                return Tup(list(a.fields.values()))
            if isinstance(a, Tr):
                return Seq(a)
            return a
        if n == "zip":
            if all(isinstance(a, Tup) and not isinstance(a, Seq) for a in args) and args and len({len(a.items) for a in args}) == 1:
                return Tup([Tup(list(x)) for x in zip(*[a.items for a in args])])
            return Seq(Tup([self.element(a) for a in args]))
        if n == "enumerate":
            a = args[0]
            if isinstance(a, Tup) and not isinstance(a, Seq):
                return Tup([Tup([St(i), x]) for i, x in enumerate(a.items)])
            return Seq(Tup([St(), self.element(a)]))
        if n == "map" and len(args) > 1:
            return Seq(self.call(args[0], [self.element(a) for a in args[1:]], {}, node, env))
        if n in ("len", "isinstance", "hasattr", "type", "str", "repr", "id", "callable", "issubclass", "format"):
            if n == "callable" and args and isinstance(args[0], CALLABLE):
                return St(True)
            if n == "hasattr" and isinstance(args[0], Tr) and isinstance(args[1], St) and args[1].const in ("times", "trans"):
                return St(False)
            if n == "hasattr" and isinstance(args[0], Rec) and isinstance(args[1], St) and isinstance(args[1].const, str):
                return St(args[1].const in args[0].fields)
            return St()
        if n == "getattr" and len(args) > 1 and isinstance(args[1], St) and isinstance(args[1].const, str):
            return self.getattr(args[0], args[1].const, node)
        return St() if not any(traced(a) for a in args) else Maybe()


class Seq(Tup):
    """sequence of unknown length with one abstract element"""
    def __init__(self, elt):
        Tup.__init__(self, [elt])

    def key(self):
        return ("Q", self.items[0].key())


class Many(Tr):
    """tuple of traced values of unknown length"""


class TrMaybe(Maybe):
    """result of an unknown callable inside a trace"""


class Dims(St):
    """shape tuple of a traced array"""


class SMeth(St):
    def __init__(self, name, obj):
        St.__init__(self)
        self.name, self.obj = name, obj

    def key(self):
        return ("S", "?")


SINKMETH = {"item", "tolist", "to_py", "resize", "broadcast_to"}
FUNFIELDS = {"func", "grad", "grad_val", "prox_op", "prox_vec_val", "func_val"}
ARRAYMETH = {"sum", "mean", "dot", "reshape", "astype", "copy", "conj", "conjugate", "transpose", "ravel", "flatten", "max", "min", "argmax", "argmin", "prod", "cumsum", "squeeze",
             "at", "set", "add", "multiply", "any", "all", "std", "var", "swapaxes", "sort", "argsort", "clip", "round", "block_until_ready", "todense", "sum_duplicates", "take", "diagonal", "trace", "repeat"}
CONSTS = {"jax.numpy.pi", "jax.numpy.inf", "jax.numpy.nan", "jax.numpy.e", "jax.numpy.newaxis", "jax.numpy.float32", "jax.numpy.float64", "jax.numpy.complex64", "jax.numpy.complex128",
          "jax.numpy.int32", "jax.numpy.int64", "jax.numpy.bool_", "jax.numpy.float_", "jax.numpy.ndarray", "numpy.pi", "numpy.inf", "numpy.nan", "numpy.e", "numpy.newaxis", "numpy.float32",
          "numpy.float64", "numpy.complex128", "numpy.int32", "numpy.int64", "numpy.ndarray", "math.pi", "math.e", "math.inf", "jax.numpy.uint8", "jax.numpy.int8", "jax.numpy.complexfloating", "jax.numpy.floating", "jax.numpy.integer"}


def conc(v):
    """result of a compiled/loop construct executed outside any trace: concrete"""
    if isinstance(v, Tup) and not isinstance(v, Seq):
        return Tup([conc(x) for x in v.items])
    if isinstance(v, Rec):
        return Rec(v.mod, v.node, {k: conc(x) for k, x in v.fields.items()})
    if isinstance(v, Tr) and not v.org:
        return St()
    return v


def norm_ext(n):
    if n.startswith("jax._src.numpy"):
        n = n.replace("jax._src.numpy", "jax.numpy", 1)
    if n == "jax.numpy.linalg.norm":
        return n
    return n


def statics(kw):
    def ints(v):
        if isinstance(v, Tup):
            return [x.const for x in v.items if isinstance(x, St) and isinstance(x.const, int)]
        if isinstance(v, St) and isinstance(v.const, int):
            return [v.const]
        return []

    def strs(v):
        if isinstance(v, Tup):
            return [x.const for x in v.items if isinstance(x, St) and isinstance(x.const, str)]
        if isinstance(v, St) and isinstance(v.const, str):
            return [v.const]
        return []
    return ints(kw.get("static_argnums")), strs(kw.get("static_argnames"))


def is_rec(mod, node):
    sc = N.Scope(mod, None, None)
    return any(sc.resolve(b) == ("external", "typing.NamedTuple") for b in node.bases) or any(
        isinstance(d, ast.Name) and d.id == "dataclass" or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "dataclass" for d in node.decorator_list)


def chain(env):
    while env is not None:
        yield env
        env = env.parent


def show(e):
    try:
        return ast.unparse(e)[:60]
    except Exception:  # noqa
        return "?"
