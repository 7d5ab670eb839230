"""Linear use of random keys: interprocedural typestate analysis.

Values are identities; jax.random draws and splits consume a key identity, and a
second consumption of the same identity on one path is a violation."""
import ast

from . import bta
from . import names as N
from .bta import St, Tr, Tup, Seq, Rec, Fn, Par, Mapped, Ext, NOC

FREE = {"PRNGKey", "key", "fold_in", "key_data", "wrap_key_data", "default_prng_impl", "key_impl"}


class Key(St):
    """a value with key identity"""
    n = 0

    def __init__(self, label, const=False, arr=None, lane=None):
        St.__init__(self)
        Key.n += 1
        self.kid = Key.n
        self.label, self.constant, self.arr, self.lane = label, const, arr, lane

    def key(self):
        return ("S", "?")


class Arr(Key):
    """array of keys: result of a split"""
    def __init__(self, label, n, const=False, parent=None):
        Key.__init__(self, label, const)
        self.n = n
        self.sub = {}
        self.keep = []


class Range(St):
    def __init__(self, n):
        St.__init__(self)
        self.n = n


class Idx(St):
    """loop index: mul * i + off with i ranging over n values"""
    def __init__(self, n, inst, mul=1, off=0, root=None):
        St.__init__(self)
        self.n, self.inst, self.mul, self.off = n, inst, mul, off
        self.root = root if root is not None else self


class Root(St):
    """parameter or attribute of one: independent of every other root"""
    def __init__(self, name):
        St.__init__(self)
        self.name = name


def is_key(p):
    return p == "key" or p.endswith("key") or p.startswith("key") or p == "rng"


CLOCK = ("time", "datetime", "os", "uuid", "secrets", "random", "id", "hash", "getpid", "urandom")


class Conflict:
    def __init__(self, rel, fn, line, msg, chain):
        self.rel, self.fn, self.line, self.msg, self.chain = rel, fn, line, msg, chain


def _lift(v):
    return v


class Keys(bta.BTA):
    def __init__(self):
        bta.BTA.__init__(self)
        self.used = {}                 # kid -> text of first use
        self.lanes = {}                # arr kid -> (instance, text)
        self.conflicts = []
        self.ambient = []
        self.constants = []
        self.draws = 0
        self.inst = 0
        self.callline = []
        self.ranges = []
        self.nonekey = 0
        self.folds = {}
        self.fnodes = [None]

    # ----------------------------------------------------------- consume
    def here(self, node):
        m, fn = self.stack[-1]
        return "%s:%d (%s)" % (m.rel, getattr(node, "lineno", 0), fn)

    def consume(self, v, node, what):
        self.draws += 1
        if self.stack[-1][1] == "<module>":
            return
        if getattr(v, "module", False):
            # keys fixed at import time serve retries of deterministic routines; a
            # file whose functions are given a key has no use for them
            rel = self.stack[-1][0].rel
            if any(m.rel == rel and self.takes_key(f) for (m, _), f in zip(self.stack[1:], self.fnodes[1:])) and not self.nonekey:
                self.constants.append((self.stack[-1], getattr(node, "lineno", 0), v.label))
            return
        if not isinstance(v, (Key, Root)):
            if isinstance(v, St) and not isinstance(v, bta.Maybe):
                kid = ("o", id(v))
                self.hold.append(v)
                self.mark(kid, v, node, what)
            return
        if isinstance(v, Root):
            self.hold.append(v)
            self.mark(("r", v.name, id(v)), v, node, what)
            return
        if v.constant and not self.nonekey:
            self.constants.append((self.stack[-1], getattr(node, "lineno", 0), v.label))
        self.mark(v.kid, v, node, what)
        if isinstance(v, Arr):
            for s in v.sub.values():
                if s.kid in self.used and self.used[s.kid] != self.used[v.kid]:
                    self.clash(node, "array of keys %s after one of its keys was consumed at %s" % (v.label, self.used[s.kid]))
        if v.arr is not None:
            a = v.arr
            if a.kid in self.used:
                self.clash(node, "key %s belongs to an array of keys already consumed as a whole at %s" % (v.label, self.used[a.kid]))
            if v.lane is not None:
                l = self.lanes.get(a.kid)
                af = getattr(v, "affine", (1, 0))
                if l is not None and l[0] != v.lane:
                    self.clash(node, "the keys %s were already consumed by the loop at %s" % (a.label, l[1]))
                else:
                    for (m, o), where in (l[2] if l else {}).items():
                        if m == af[0] and o != af[1] and (o - af[1]) % abs(m) == 0:
                            self.clash(node, "%s is the key another pass of the loop consumes at %s" % (v.label, where))
                            break
                    d = dict(l[2]) if l else {}
                    d.setdefault(af, self.here(node))
                    self.lanes[a.kid] = (v.lane, self.here(node), d)
                for s in a.sub.values():
                    if s.lane is None and s.kid in self.used:
                        self.clash(node, "the keys %s are consumed by a loop after %s was consumed at %s" % (a.label, s.label, self.used[s.kid]))
            elif a.kid in self.lanes:
                self.clash(node, "key %s was already consumed by the loop at %s" % (v.label, self.lanes[a.kid][1]))

    hold = []

    def born(self, k):
        k.module = self.stack[-1][1] == "<module>"
        return k

    def mark(self, kid, v, node, what):
        if kid in self.used:
            self.clash(node, "%s consumes a key already consumed at %s" % (what, self.used[kid]))
        else:
            self.used[kid] = "%s by %s" % (self.here(node), what)

    def clash(self, node, msg):
        m, fn = self.stack[-1]
        self.conflicts.append(Conflict(m.rel, fn, getattr(node, "lineno", 0), msg, [s[1] for s in self.stack]))

    # ------------------------------------------------------------- random
    def ext(self, name, args, kw, node, env):
        last = name.rsplit(".", 1)[-1]
        if name.startswith("jax.random."):
            k = args[0] if args else kw.get("key", kw.get("seed"))
            if last in ("PRNGKey", "key"):
                for x in ast.walk(node) if isinstance(node, ast.Call) else ():
                    if isinstance(x, ast.Call) and x is not node:
                        f = x.func
                        while isinstance(f, ast.Attribute):
                            f = f.value
                        if isinstance(f, ast.Name):
                            ev = env.get(f.id) or self.modget(self.stack[-1][0], f.id)
                            nm = ev.name.split(".")[0] if isinstance(ev, (Ext, bta.ModV)) else None
                            if nm in CLOCK or f.id in ("id", "hash"):
                                self.ambient.append((self.stack[-1], node.lineno, bta.show(x)))
                c = isinstance(k, St) and k.const is not NOC or not isinstance(k, (Root, Key, Idx)) and not args
                return self.born(Key("PRNGKey", const=isinstance(k, St) and k.const is not NOC))
            if last == "fold_in":
                d = args[1] if len(args) > 1 else kw.get("data", St())
                c = d.const if isinstance(d, St) and isinstance(d.const, (int, str)) else None
                if c is None and isinstance(d, Root):
                    c = ("r", d.name)
                if c is not None and isinstance(k, (Key, Root)):
                    self.hold.append(k)
                    kk = (id(k), c)
                    if kk not in self.folds:
                        self.folds[kk] = self.born(Key("fold_in(%s)" % (c,), const=getattr(k, "constant", False)))
                    return self.folds[kk]
            if last in FREE:
                return self.born(Key(last, const=getattr(k, "constant", False)))
            if k is not None:
                self.consume(k, node, "random.%s" % last)
            if last == "split":
                n = args[1] if len(args) > 1 else kw.get("num", St(2))
                if isinstance(n, Tup) and len(n.items) == 1:
                    n = n.items[0]
                return self.born(Arr(bta.show(node), n, const=getattr(k, "constant", False)))
            return St()
        if name.startswith("numpy.random.") or name.startswith("random.") or name.startswith("secrets.") or name == "os.urandom":
            self.ambient.append((self.stack[-1], getattr(node, "lineno", 0), name))
            return St()
        if name == "jax.lax.while_loop" and len(args) >= 3:
            s = args[2]
            for _ in range(2):
                self.call(args[0], [s], {}, node, env)
                s = self.call(args[1], [s], {}, node, env)
            return s
        if name == "jax.lax.fori_loop" and len(args) >= 4:
            s = args[3]
            self.inst += 1
            inst = self.inst
            for _ in range(2):
                s = self.call(args[2], [Idx(None, inst), s], {}, node, env)
            return s
        if name == "jax.lax.scan" and len(args) >= 2:
            s = args[1]
            xs = args[2] if len(args) > 2 else kw.get("xs", St(None))
            self.inst += 1
            inst, r = self.inst, None
            for _ in range(2):
                r = self.call(args[0], [s, self.elem(xs, inst)], {}, node, env)
                s = r.items[0] if isinstance(r, Tup) and len(r.items) == 2 else s
            return Tup([s, St()])
        if name == "jax.lax.map" and len(args) == 2:
            self.inst += 1
            inst = self.inst
            for _ in range(2):
                self.call(args[0], [self.elem(args[1], inst)], {}, node, env)
            return St()
        if name == "jax.lax.cond" and len(args) >= 3:
            u0, l0 = dict(self.used), dict(self.lanes)
            a = self.call(args[1], args[3:], {}, node, env)
            u1, l1 = self.used, self.lanes
            self.used, self.lanes = u0, l0
            b = self.call(args[2], args[3:], {}, node, env)
            self.used.update(u1)
            self.lanes.update(l1)
            return bta.join(a, b)
        if name in ("jax.vmap", "jax.pmap"):
            if not args:
                return St()
            ax = args[1] if len(args) > 1 else kw.get("in_axes", St(0))
            return VMap(args[0], ax)
        if name in ("jax.numpy.array", "jax.numpy.asarray", "jax.device_put"):
            return args[0] if args else St()
        return bta.BTA.ext(self, name, args, kw, node, env)

    def builtin(self, n, args, kw, node, env):
        if n == "range":
            if len(args) == 1:
                return Range(args[0])
            return Range(None)
        if n == "zip":
            return Zip(args)
        if n == "enumerate":
            return Zip([Range(None), args[0]])
        if n in ("list", "tuple") and args and isinstance(args[0], (Arr, Zip, Range)):
            return args[0]
        return bta.BTA.builtin(self, n, args, kw, node, env)

    def call(self, f, args, kw, node, env):
        if isinstance(f, VMap):
            self.inst += 1
            inst = self.inst
            ax = f.axes
            r = St()
            for _ in range(2):
                xs = []
                for i, a in enumerate(args):
                    x = ax.items[i] if isinstance(ax, Tup) and i < len(ax.items) else ax
                    if isinstance(x, St) and x.const is None:
                        xs.append(a)
                    else:
                        xs.append(self.elem(a, inst))
                r = self.call(f.f, xs, {k: self.elem(v, inst) for k, v in kw.items()}, node, env)
            return St() if not isinstance(r, Tup) else Tup([St() for _ in r.items])
        return bta.BTA.call(self, f, args, kw, node, env)

    def jitcall(self, f, args, kw, node, env):
        return self.call_fn(Fn(f.node, f.env, f.mod, f.bound), args, kw, node)

    # ------------------------------------------------------------ elements
    def elem(self, v, inst):
        """one fresh element of a sequence"""
        if isinstance(v, Arr):
            k = Key("element of " + v.label, const=v.constant, arr=v, lane=inst)
            k.module = getattr(v, "module", False)
            return k
        if isinstance(v, Range):
            return Idx(v.n, inst)
        if isinstance(v, Zip):
            return Tup([self.elem(x, inst) for x in v.parts])
        if isinstance(v, Tup):
            return self.element(v)
        if isinstance(v, Root):
            return Key("element of " + v.name, arr=self.arr_of(v), lane=inst)
        return St()

    def arr_of(self, v):
        if not hasattr(v, "asarr"):
            v.asarr = Arr(getattr(v, "name", "keys"), None)
        return v.asarr

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, Root):
            o = self.arr_of(o)
        if not isinstance(o, Arr):
            return self.subscript(o, e, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, env) if e.slice.lower is not None else St(0)
            hi = self.eval(e.slice.upper, env) if e.slice.upper is not None else St(None)
            if all(isinstance(x, St) and x.const is not NOC for x in (lo, hi)) and e.slice.step is None:
                v = View(o, lo.const, hi.const)
                return v
            a = Arr("slice of " + o.label, None, o.constant)
            return a
        i = self.eval(e.slice, env)
        return self.pick(o, i, e)

    def pick(self, o, i, e):
        k = self.pick1(o, i, e)
        b = o
        while isinstance(b, View):
            b = b.base
        k.module = getattr(b, "module", False)
        return k

    def pick1(self, o, i, e):
        n = o.n.const if isinstance(o.n, St) and isinstance(o.n.const, int) else None
        off = 0
        base = o
        while isinstance(base, View):
            off += base.lo or 0
            base = base.base
        if isinstance(i, St) and isinstance(i.const, int) and not isinstance(i.const, bool):
            c = i.const
            if c < 0:
                if n is not None:
                    c += n
                else:
                    key = ("neg", c)
                    return base.sub.setdefault(key, Key("%s[%d]" % (base.label, c), base.constant, arr=base))
            if n is not None and c >= n:
                self.clash(e, "index %d is outside the %d keys of %s and is clamped to a key already in use" % (c, n, o.label))
                c = n - 1
            c += off
            return base.sub.setdefault(c, Key("%s[%d]" % (base.label, c), base.constant, arr=base))
        if isinstance(i, Idx):
            if i.n is not None and isinstance(o.n, St) and i.n is not o.n:
                a, b = i.n, o.n
                bad = None
                if isinstance(a.const, int) and isinstance(b.const, int) and a.const is not NOC and b.const is not NOC:
                    bad = a.const > b.const
                elif isinstance(a, Root) and isinstance(b, Root):
                    bad = a.name != b.name
                elif isinstance(a, Root) and isinstance(b.const, int):
                    bad = True
                if bad:
                    self.clash(e, "the loop index runs over %s values but %s keys were split; indices beyond are clamped to the last key" % (
                        getattr(a, "name", a.const), getattr(b, "name", b.const)))
            if i.n is not None and i.n is o.n and i.mul == 1 and i.off > 0:
                self.clash(e, "the loop index plus %d runs past the keys of %s and is clamped to the last one" % (i.off, o.label))
            k = (id(i.root), i.mul, i.off + off)
            base.keep.append(i)
            if k not in base.sub:
                base.sub[k] = Key("%s[%s]" % (base.label, bta.show(e.slice) if isinstance(e, ast.Subscript) else "i"), base.constant, arr=base, lane=i.inst)
                base.sub[k].affine = (i.mul, i.off + off)
            return base.sub[k]
        if isinstance(i, St):
            base.keep.append(i)
            return base.sub.setdefault(id(i), Key("%s[%s]" % (base.label, bta.show(e.slice)), base.constant, arr=None))
        return Key("element", base.constant)

    def element(self, v):
        if isinstance(v, (Arr, Range, Zip)):
            self.inst += 1
            return self.elem(v, self.inst)
        if isinstance(v, Tup) and not isinstance(v, Seq):
            ks = [x for x in v.items if isinstance(x, Key)]
            if ks:
                return Key("element")
        return bta.BTA.element(self, v)

    def assign(self, t, v, env):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Arr):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, View(v, i, None), env)
                    continue
                self.assign(x, self.pick(v, St(i), t), env)
            return
        bta.BTA.assign(self, t, v, env)

    def getattr(self, o, a, e):
        if isinstance(o, (Root, bta.Obj)) and not (isinstance(o, bta.Obj) and (a in o.attrs or any(isinstance(st, N.FUNCS) and st.name == a for st in o.node.body))):
            if not hasattr(o, "attrroots"):
                o.attrroots = {}
            nm = (o.name if isinstance(o, Root) else o.node.name) + "." + a
            if a in ("shape", "dtype", "ndim", "size", "T"):
                return St()
            if a not in o.attrroots:
                o.attrroots[a] = Root(nm)
            return o.attrroots[a]
        return bta.BTA.getattr(self, o, a, e)

    # ---------------------------------------------------------- statements
    def stmt(self, st, env, rets):
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.eval(st.iter, env)
            self.inst += 1
            inst = self.inst
            if isinstance(it, Tup) and not isinstance(it, Seq) and it.items and len(it.items) <= 8:
                seq = [(lambda x=x: x) for x in it.items]
            else:
                seq = [lambda: self.elem(it, inst)] * 2
            for g in seq:
                self.assign(st.target, g(), env)
                self.block(st.body, env, rets)
            self.block(st.orelse, env, rets)
            return True
        if isinstance(st, ast.While):
            for _ in range(2):
                self.eval(st.test, env)
                self.block(st.body, env, rets)
            return True
        return bta.BTA.stmt(self, st, env, rets)

    def comp(self, e, env):
        v = St()
        self.inst += 1
        inst = self.inst
        en = bta.Env(env, env.mod, env.fn)

        def rec(k, it):
            nonlocal v
            if k == len(e.generators):
                if isinstance(e, ast.DictComp):
                    self.eval(e.key, en)
                    self.eval(e.value, en)
                else:
                    v = self.eval(e.elt, en)
                return
            g = e.generators[k]
            lane = inst if k == 0 else (inst, k, id(it))
            if isinstance(it, Tup) and not isinstance(it, Seq) and it.items and len(it.items) <= 8:
                elems = [(lambda x=x: x) for x in it.items]
            else:
                elems = [lambda: self.elem(it, lane)] * 2
            for q in elems:
                self.assign(g.target, q(), en)
                for c in g.ifs:
                    self.eval(c, en)
                # the first iterable is evaluated once, those inside once for each pass
                rec(k + 1, self.eval(e.generators[k + 1].iter, en) if k + 1 < len(e.generators) else None)
        rec(0, self.eval(e.generators[0].iter, env))
        return Seq(v)

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def ifstmt(self, st, env, rets):
        t = self.eval(st.test, env)
        c = self.truth(t)
        if c is True:
            return self.block(st.body, env, rets)
        if c is False:
            return self.block(st.orelse, env, rets)
        isnone = self.none_test(st.test)
        before = dict(env.vars)
        u0, l0 = dict(self.used), dict(self.lanes)
        self.nonekey += 1 if isnone == "body" else 0
        a = self.block(st.body, env, rets)
        self.nonekey -= 1 if isnone == "body" else 0
        va, u1, l1 = env.vars, self.used, self.lanes
        env.vars, self.used, self.lanes = dict(before), u0, l0
        self.nonekey += 1 if isnone == "orelse" else 0
        b = self.block(st.orelse, env, rets)
        self.nonekey -= 1 if isnone == "orelse" else 0
        vb = env.vars
        if a and b:
            out = {}
            for k in set(va) | set(vb):
                x, y = va.get(k), vb.get(k)
                out[k] = x if y is None else y if x is None else x if x is y else bta.join(x, y)
                if isinstance(x, Key) and isinstance(y, (Root, St)) and x is not y or isinstance(y, Key) and isinstance(x, (Root, St)) and x is not y:
                    out[k] = Key("merged")
            env.vars = out
            self.used.update(u1)
            self.lanes.update(l1)
            return True
        if a:
            env.vars, self.used, self.lanes = va, u1, l1
        return a or b

    def arith(self, a, b, e):
        if isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
            c = None
            if isinstance(a, Idx) and isinstance(b, St) and isinstance(b.const, int):
                i, c = a, b.const
            elif isinstance(b, Idx) and isinstance(a, St) and isinstance(a.const, int) and not isinstance(e.op, ast.Sub):
                i, c = b, a.const
            if c is not None:
                if isinstance(e.op, ast.Mult):
                    return Idx(i.n if c == 1 else None, i.inst, i.mul * c, i.off * c, i.root) if c else St(0)
                return Idx(i.n, i.inst, i.mul, i.off + (c if isinstance(e.op, ast.Add) else -c), i.root)
        return bta.BTA.arith(self, a, b, e)

    def takes_key(self, f):
        return f is not None and any(is_key(x.arg) for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs)

    def call_fn(self, f, args, kw, node, env=None):
        self.fnodes.append(f.node)
        try:
            return bta.BTA.call_fn(self, f, args, kw, node, env)
        finally:
            self.fnodes.pop()

    def none_test(self, test):
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is):
                return "body"
            if isinstance(test.ops[0], ast.IsNot):
                return "orelse"
        return None

    def e_IfExp(self, e, env):
        self.eval(e.test, env)
        u0, l0 = dict(self.used), dict(self.lanes)
        isnone = self.none_test(e.test)
        self.nonekey += 1 if isnone == "body" else 0
        a = self.eval(e.body, env)
        self.nonekey -= 1 if isnone == "body" else 0
        u1, l1 = self.used, self.lanes
        self.used, self.lanes = u0, l0
        self.nonekey += 1 if isnone == "orelse" else 0
        b = self.eval(e.orelse, env)
        self.nonekey -= 1 if isnone == "orelse" else 0
        self.used.update(u1)
        self.lanes.update(l1)
        if isinstance(a, Key) or isinstance(b, Key):
            if a is not b:
                return Key("merged")
        return bta.join(a, b)


class VMap(bta.V):
    def __init__(self, f, axes):
        self.f, self.axes = f, axes

    def key(self):
        return ("VM", self.f.key())


class Zip(bta.V):
    def __init__(self, parts):
        self.parts = parts

    def key(self):
        return ("ZP",)


class View(Arr):
    def __init__(self, base, lo, hi):
        n = None
        if isinstance(base.n, St) and isinstance(base.n.const, int):
            n = St(len(range(base.n.const)[slice(lo, hi)]))
        Arr.__init__(self, "%s[%s:%s]" % (base.label, lo, hi if hi is not None else ""), n, base.constant)
        self.base, self.lo = base, lo


bta.CALLABLE = bta.CALLABLE + (VMap,)
