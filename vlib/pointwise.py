"""Element form of array value numbers: the entry at symbolic indices as a scalar
value number, reductions as binders.  Two arrays are equal when their shapes are
and their entries at generic indices are the same scalar value number (up to the
ordering cells of eqv)."""
import itertools

from . import kernel as K
from . import prims
from . import shape as S
from . import term as T
from .term import mk, num, ONE, ZERO, NONE, TRUE, FALSE, is_num, add, sub, mul, power, scale


class Unknown(Exception):
    pass


_c = itertools.count()


def fresh():
    v = T.sym("φ%d" % next(_c))
    T.CTX.scalars.add(v)
    T.CTX.nonneg.add(v)
    T.CTX.reals.add(v)
    K.INTS.add(v)
    return v


def beta(h):
    v = T.sym("β%d" % h)
    T.CTX.scalars.add(v)
    T.CTX.nonneg.add(v)
    T.CTX.reals.add(v)
    K.INTS.add(v)
    return v


def height(t):
    return max([x.args[1] for x in T.subterms(t) if x.op == "red"], default=-1)


def scal(t, real=False):
    T.CTX.scalars.add(t)
    if real or T.CTX.real:
        T.CTX.reals.add(t)
    return t


def ent(a, idx):
    t = mk("ent", a, tuple(idx))
    if T.is_real(a) or T.CTX.real:
        T.CTX.reals.add(t)
    return scal(t)


def binder(kind, body, var, n):
    h = height(body) + 1
    b = beta(h)
    t = mk("red", kind, h, T.subst(body, {var: b}), n)
    if kind in ("sum", "max", "min") and T.is_real(body):
        T.CTX.reals.add(t)
    if kind in ("sum", "max", "min") and T.nonneg(body):
        T.CTX.nonneg.add(t)
    if kind in ("argmax", "argmin"):
        K.INTS.add(t)
        T.CTX.reals.add(t)
        T.CTX.nonneg.add(t)
    if kind in ("all", "any"):
        # a boolean atom
        return T.cmp("le", ONE, scal(t, True))
    return scal(t)


def rsum(body, var, n):
    """sum over 0 <= var < n, linear, constants pulled out, one-hot eliminated"""
    if body is ZERO:
        return ZERO
    if body.op == "ite" and body.args[2] is ZERO or body.op == "ite" and body.args[1] is ZERO:
        c, x, neg = body.args[0], body.args[1], False
        if x is ZERO:
            c, x = T.not_(c), body.args[2]
        cs = list(c.args[0]) if c.op == "and" else [c]
        for k in cs:
            e = onehot(k, var)
            if e is not None:
                rest = [q for q in cs if q is not k]
                x2 = T.subst(x, {var: e})
                if rest:
                    x2 = T.ite(T.and_(*[T.subst(q, {var: e}) for q in rest]), x2, ZERO)
                return x2
    out = []
    for m, c in T._as_poly(body).items():
        if m is ONE:
            out.append(scale(n, c))
            continue
        d = T._as_prod(m)
        pull = {f: e for f, e in d.items() if var not in T.syms(f)}
        rest = {f: e for f, e in d.items() if f not in pull}
        p = mul(*[power(f, e) for f, e in pull.items()]) if pull else ONE
        if not rest:
            out.append(scale(mul(p, n), c))
            continue
        r = mul(*[power(f, e) for f, e in rest.items()])
        if len(T._as_poly(r)) == 1 and r.op == "ite" and (r.args[1] is ZERO or r.args[2] is ZERO) and r is not body:
            q = rsum(r, var, n)
        else:
            q = binder("sum", r, var, n)
        out.append(scale(mul(p, q), c))
    return add(*out)


def onehot(k, var):
    """k <=> var == e with e free of var, an index of the same range"""
    if k.op != "cmp" or k.args[0] != "eq":
        return None
    p = dict(T._as_poly(sub(k.args[1], k.args[2])))
    c = p.pop(var, None)
    if c is None or abs(c) != 1:
        return None
    rest = add(*[scale(m, x) for m, x in p.items()]) if p else ZERO
    if var in T.syms(rest):
        return None
    e = scale(rest, -1 / c) if rest is not ZERO else ZERO
    if e.op == "sym" and (e.args[0].startswith("φ") or e.args[0].startswith("β")):
        return e
    return None


def items(t):
    return list(t.args[0]) if t.op == "tuple" else None


class PW:
    def __init__(self):
        self.env = {}

    def shape(self, t):
        if t in self.env and S.shape_of(t) is None:
            a, k, i, e = self.env[t]
            s = self.within(e, lambda: self.shape(a))
            return s[:k] + s[k + 1:]
        s = S.shape_of(t)
        if s is None:
            raise Unknown("shape of %s" % T.show(t, 2))
        return s

    def within(self, env, f):
        """evaluate outside a binder"""
        cur, self.env = self.env, env
        try:
            return f()
        finally:
            self.env = cur

    def rank(self, t):
        return len(self.shape(t))

    def sub(self, t, idx):
        """entry of an operand broadcast to the rank of idx"""
        s = self.shape(t)
        if len(s) > len(idx):
            raise Unknown("broadcast")
        j = idx[len(idx) - len(s):]
        return self.E(t, tuple(ZERO if d is ONE else i for d, i in zip(s, j)))

    # ------------------------------------------------------------------
    def E(self, t, idx):
        if t in self.env:
            a, k, i, e = self.env[t]
            return self.within(e, lambda: self.E(a, idx[:k] + (i,) + idx[k:]))
        f = getattr(self, "e_" + t.op, None)
        if f is not None:
            return f(t, idx)
        return self.opaque(t, idx)

    def opaque(self, t, idx):
        c = self.canon(t)
        if not idx and (T.is_scalar(t) or S.shape_of(t) == ()):
            return scal(c)
        return ent(c, idx)

    def canon(self, t):
        """arguments in element form"""
        o, a = t.op, t.args
        if o in ("num", "const", "sym"):
            if t in self.env:
                return self.lam(t)
            return t
        if o == "call":
            return mk("call", a[0], tuple(self.arg(x) for x in a[1]), tuple((k, self.arg(v)) for k, v in a[2]))
        if o == "uf":
            return mk("uf", a[0], a[1], tuple(self.arg(x) for x in a[2]))
        return mk(o, *[self.arg(x) for x in a])

    def arg(self, x):
        if isinstance(x, tuple):
            return tuple(self.arg(y) for y in x)
        if not isinstance(x, T.Term):
            return x
        if x.op in ("const", "num"):
            return x
        if x.op in ("tuple", "slice"):
            return mk(x.op, *[self.arg(y) for y in x.args])
        if S.shape_of(x) is None and x not in self.env:
            return self.canon(x)
        return self.lam(x)

    def lam(self, x):
        s = self.shape(x)
        if not s:
            return self.E(x, ())
        if x.op == "sym" and x not in self.env:
            return x
        vs = tuple(fresh() for _ in s)
        b = self.E(x, vs)
        if b.op == "ent" and b.args[1] == vs:
            return b.args[0]
        h = height(b) + 1
        bs = tuple(beta(h + i) for i in range(len(vs)))
        b = T.subst(b, dict(zip(vs, bs)))
        return mk("lamarr", b, tuple(bs), tuple(s))

    # elementwise --------------------------------------------------------
    def e_num(self, t, idx):
        return t

    def e_const(self, t, idx):
        return t

    def e_sym(self, t, idx):
        return ent(t, idx) if idx else t

    def e_sum(self, t, idx):
        return add(*[scale(self.sub(m, idx), c) for m, c in t.args[0]])

    def e_prod(self, t, idx):
        return mul(*[power(self.sub(f, idx), e) for f, e in t.args[0]])

    def e_abs(self, t, idx):
        return T.abs_(self.sub(t.args[0], idx))

    def e_conj(self, t, idx):
        return T.conj(self.sub(t.args[0], idx))

    def e_real(self, t, idx):
        return T.real_(self.sub(t.args[0], idx))

    def e_cmp(self, t, idx):
        if t.args[0] == "eqv":
            return t
        return self.cmp(t.args[0], self.sub(t.args[1], idx), self.sub(t.args[2], idx))

    def cmp(self, k, a, b):
        d = sub(a, b)
        for m, c in T._as_poly(d).items():
            if m.op == "ite" and is_num(m.args[1]) and is_num(m.args[2]):
                rest = sub(d, scale(m, c))
                x, y = (self.cmp(k, add(rest, scale(q, c)), ZERO) for q in m.args[1:])
                g = m.args[0]
                return T.or_(T.and_(g, x), T.and_(T.not_(g), y))
        return T.cmp(k, a, b)

    def e_and(self, t, idx):
        return T.and_(*[self.sub(x, idx) for x in t.args[0]])

    def e_or(self, t, idx):
        return T.or_(*[self.sub(x, idx) for x in t.args[0]])

    def e_not(self, t, idx):
        return T.not_(self.sub(t.args[0], idx))

    def e_ite(self, t, idx):
        c, a, b = t.args
        return T.ite(self.sub(c, idx) if S.shape_of(c) is not None else self.canon(c), self.sub(a, idx), self.sub(b, idx))

    def e_max(self, t, idx):
        return T.maximum(*[self.sub(x, idx) for x in t.args[0]])

    def e_min(self, t, idx):
        return T.minimum(*[self.sub(x, idx) for x in t.args[0]])

    def _un(self, t, idx):
        return scal(mk(t.op, self.sub(t.args[0], idx)))
    e_exp = e_log = e_cos = e_sin = e_sign = _un

    def e_pow(self, t, idx):
        return scal(mk("pow", self.sub(t.args[0], idx), self.sub(t.args[1], idx)))

    # structure ------------------------------------------------------------
    def e_zeros(self, t, idx):
        return ZERO

    def e_ones(self, t, idx):
        return ONE

    def e_eye(self, t, idx):
        return T.ite(T.cmp("eq", idx[0], idx[1]), ONE, ZERO)

    def e_arange(self, t, idx):
        a = t.args
        if len(a) == 1:
            return idx[0]
        st = a[2] if len(a) > 2 else ONE
        return add(self.E(a[0], ()), mul(st, idx[0]))

    def e_T(self, t, idx):
        return self.E(t.args[0], tuple(reversed(idx)))

    def e_array(self, t, idx):
        it = items(t.args[0])
        if it is None:
            return self.E(t.args[0], idx)
        i = idx[0]
        if is_num(i):
            return self.E(it[int(i.args[0])], idx[1:])
        return self.cases(i, it, idx[1:])

    def e_tuple(self, t, idx):
        return self.e_array(mk("array", t), idx)

    def cases(self, i, it, rest):
        if len(it) > 12:
            raise Unknown("literal array")
        r = self.E(it[-1], rest)
        for k in range(len(it) - 2, -1, -1):
            r = T.ite(T.cmp("eq", i, num(k)), self.E(it[k], rest), r)
        return r

    def e_flip(self, t, idx):
        s = self.shape(t.args[0])
        return self.E(t.args[0], (sub(sub(s[0], ONE), idx[0]),) + idx[1:])

    def e_vmapped(self, t, idx):
        body, used, oa = t.args
        k = int(oa.args[0])
        i = idx[k]
        save = self.env
        env = dict(save)
        for b, ax, x in used:
            env[b] = (x, int(ax.args[0]), i, save)
        return self.within(env, lambda: self.E(body, idx[:k] + idx[k + 1:]))

    def e_along(self, t, idx):
        raise Unknown("along")

    def e_concat(self, t, idx):
        it = items(t.args[0])
        if it is None:
            raise Unknown("concat")
        k = int(t.args[1].args[0]) if len(t.args) > 1 and is_num(t.args[1]) else 0
        i = idx[k]
        offs, o = [], ZERO
        for x in it:
            s = self.shape(x)
            offs.append(o)
            o = add(o, s[k] if s else ONE)
        r = None
        for x, o in reversed(list(zip(it, offs))):
            s = self.shape(x)
            e = self.E(x, idx[:k] + (sub(i, o),) + idx[k + 1:]) if s else self.E(x, ())
            r = e if r is None else T.ite(T.cmp("lt", i, add(o, s[k] if s else ONE)), e, r)
        return r

    def e_reshape(self, t, idx):
        s, s2 = self.shape(t.args[0]), self.shape(t)
        if tuple(d for d in s if d is not ONE) == tuple(d for d in s2 if d is not ONE):
            j = [i for d, i in zip(s2, idx) if d is not ONE]
            out = []
            for d in s:
                out.append(ZERO if d is ONE else j.pop(0))
            return self.E(t.args[0], tuple(out))
        raise Unknown("reshape")

    def e_idx(self, t, idx):
        b, i = t.args
        if b.op in ("call", "lamres") and is_num(i) and S.shape_of(b) is None:
            c = mk("idx", self.canon(b), i)
            return ent(c, idx) if idx else scal(c)
        s = self.shape(b)
        it = items(i) if i.op == "tuple" else [i]
        if it is None:
            raise Unknown("index")
        if any(x.op == "const" and x.args[0] == "ellipsis" for x in it):
            k = [j for j, x in enumerate(it) if x.op == "const" and x.args[0] == "ellipsis"][0]
            nn = sum(1 for x in it if x is not NONE) - 1
            it = it[:k] + [prims.FULL] * (len(s) - nn) + it[k + 1:]
        # shapes of advanced indices
        adv = [x for x in it if x is not NONE and x.op != "slice" and not (is_num(x) or T.is_scalar(x) or S.shape_of(x) == ())]
        for x in adv:
            if T.isb(x):
                raise Unknown("mask")
        ar = 0
        pos = list(idx)
        out = []
        if adv:
            ar = max(self.rank(x) for x in adv)
        where = [j for j, x in enumerate(it) if x in adv]
        if where and any(it[j] not in adv for j in range(where[0], where[-1] + 1)):
            raise Unknown("separated advanced indices")
        advidx = None
        d = 0
        for x in it:
            if x is NONE:
                pos.pop(0)
                continue
            if x.op == "slice":
                n = s[d]
                lo, hi, st = x.args
                p = pos.pop(0)
                if st is NONE or is_num(st) and st.args[0] > 0:
                    stv = 1 if st is NONE else st.args[0]
                    l = ZERO if lo is NONE else self.pos(lo, n)
                    out.append(add(l, scale(p, stv)))
                elif is_num(st) and lo is NONE:
                    out.append(add(sub(n, ONE), scale(p, st.args[0])))
                elif is_num(st):
                    out.append(add(self.pos(lo, n), scale(p, st.args[0])))
                else:
                    raise Unknown("slice step")
                d += 1
                continue
            if x in adv:
                if advidx is None:
                    advidx = tuple(pos[:ar])
                    pos = pos[ar:]
                out.append(self.sub(x, advidx))
                d += 1
                continue
            out.append(self.pos(self.E(x, ()) if not is_num(x) else x, s[d]))
            d += 1
        out += pos
        if len(out) != len(s):
            raise Unknown("index rank")
        return self.E(b, tuple(out))

    def pos(self, v, n):
        v = v if is_num(v) else self.E(v, ())
        if is_num(v) and v.args[0] < 0:
            return add(n, v)
        return v

    def e_at_set(self, t, idx):
        return self.at(t, idx, lambda old, new: new)

    def e_at_add(self, t, idx):
        return self.at(t, idx, add)

    def at(self, t, idx, f):
        b, i, v = t.args
        s = self.shape(b)
        old = self.E(b, idx)
        it = items(i) if i.op == "tuple" else [i]
        if it is None:
            raise Unknown("at")
        dg = self.diag(it)
        if dg and len(s) == 2:
            new = self.E(v, (idx[0],)) if self.rank(v) == 1 else self.E(v, ())
            return T.ite(T.cmp("eq", idx[0], idx[1]), f(old, new), old)
        conds, rel = [], []
        for d, x in enumerate(it):
            p = idx[d]
            if x.op == "slice":
                lo, hi, st = x.args
                if not (st is NONE or st is ONE):
                    raise Unknown("at step")
                l = ZERO if lo is NONE else self.pos(lo, s[d])
                if lo is not NONE:
                    conds.append(T.cmp("le", l, p))
                if hi is not NONE:
                    conds.append(T.cmp("lt", p, self.pos(hi, s[d])))
                rel.append(sub(p, l))
            elif is_num(x) or T.is_scalar(x):
                conds.append(T.cmp("eq", p, self.pos(x, s[d])))
            elif T.isb(x) and len(it) == 1 and self.rank(x) == len(s):
                if self.rank(v):
                    raise Unknown("mask values")
                return T.ite(self.E(x, idx), f(old, self.E(v, ())), old)
            else:
                raise Unknown("at index")
        rel += list(idx[len(it):])
        new = self.sub(v, tuple(rel))
        return T.ite(T.and_(*conds) if conds else TRUE, f(old, new), old)

    def diag(self, it):
        def which(x):
            if x.op == "idx" and x.args[0].op == "call" and x.args[0].args[0] == "np.diag_indices" and is_num(x.args[1]):
                return int(x.args[1].args[0])
            if x.op == "arange" and len(x.args) == 1:
                return "r"
            return None
        w = [which(x) for x in it]
        return w in ([0, 1], ["r", "r"], [1, 0])

    def e_scatter(self, t, idx):
        raise Unknown("scatter")

    # reductions -----------------------------------------------------------
    def overall(self, x, f):
        """nested reduction over every axis"""
        s = self.shape(x)
        vs = [fresh() for _ in s]
        r = self.E(x, tuple(vs))
        for v, n in reversed(list(zip(vs, s))):
            r = f(r, v, n)
        return r

    def e_sum0(self, t, idx):
        return self.overall(num1(t.args[0]), rsum)

    def e_bsum(self, t, idx):
        v = fresh()
        x = num1(t.args[0])
        return rsum(self.E(x, (v,) + idx), v, self.shape(x)[0])

    def e_mean0(self, t, idx):
        x = num1(t.args[0])
        return mul(self.overall(x, rsum), power(mul(*self.shape(x)), -1))

    def e_n2(self, t, idx):
        x = t.args[0]
        s = self.shape(x)
        vs = [fresh() for _ in s]
        e = self.E(x, tuple(vs))
        r = power(e, 2) if T.is_real(e) or T.CTX.real else power(T.abs_(e), 2)
        for v, n in reversed(list(zip(vs, s))):
            r = rsum(r, v, n)
        return r

    def e_norm1(self, t, idx):
        return self.overall(T.mk("abs", t.args[0]) if t.args[0].op != "abs" else t.args[0], rsum)

    def e_norminf(self, t, idx):
        return self.overall(T.mk("abs", t.args[0]), lambda r, v, n: self.red("max", r, v, n))

    def e_vdot(self, t, idx):
        a, b = t.args
        s = self.shape(a)
        vs = tuple(fresh() for _ in s)
        r = mul(T.conj(self.E(a, vs)), self.E(b, vs))
        for v, n in reversed(list(zip(vs, s))):
            r = rsum(r, v, n)
        return r

    def e_mm(self, t, idx):
        xs = t.args
        a = xs[0] if len(xs) == 2 else mk("mm", *xs[:-1])
        b = xs[-1]
        sa, sb = self.shape(a), self.shape(b)
        v = fresh()
        i = idx[:len(sa) - 1]
        j = idx[len(sa) - 1:]
        if len(sb) == 1:
            eb = self.E(b, (v,))
        elif len(sb) == 2 and len(sa) <= 2:
            eb = self.E(b, (v,) + j)
        else:
            raise Unknown("mm rank")
        return rsum(mul(self.E(a, i + (v,)), eb), v, sa[-1])

    def red(self, kind, body, v, n):
        if kind in ("all", "any"):
            return binder(kind, body, v, n)
        if v not in T.syms(body) and kind in ("max", "min"):
            return body
        b = squared(body)
        if b is not body:
            return power(binder(kind, b, v, n), body.args[0][0][1])
        return binder(kind, body, v, n)

    def e_max0(self, t, idx):
        return self.overall(t.args[0], lambda r, v, n: self.red("max", r, v, n))

    def e_min0(self, t, idx):
        return self.overall(t.args[0], lambda r, v, n: self.red("min", r, v, n))

    def e_any0(self, t, idx):
        return self.overall(t.args[0], lambda r, v, n: self.red("any", r, v, n))

    def e_all0(self, t, idx):
        return self.overall(t.args[0], lambda r, v, n: self.red("all", r, v, n))

    def e_argmax(self, t, idx):
        return self.arg0(t, "argmax")

    def e_argmin(self, t, idx):
        return self.arg0(t, "argmin")

    def arg0(self, t, kind):
        x = t.args[0]
        s = self.shape(x)
        if len(s) != 1:
            return scal(mk(kind, self.lam(x)))
        v = fresh()
        return self.argred(kind, self.E(x, (v,)), v, s[0])

    def argred(self, kind, body, v, n):
        if T.isb(body):
            body = T.ite(body, ONE, ZERO)
        # positions are unchanged by square roots of non-negative numbers
        b = squared(body)
        return binder(kind, b, v, n)

    def axis(self, s, ax):
        if not is_num(ax):
            raise Unknown("axis")
        return int(ax.args[0]) % len(s)

    def along(self, x, ax, keep, idx, f):
        s = self.shape(x)
        k = self.axis(s, ax)
        idx = idx[:k] + idx[k + 1:] if keep else idx
        v = fresh()
        return f(self.E(x, idx[:k] + (v,) + idx[k:]), v, s[k])

    def e_sumax(self, t, idx):
        return self.along(num1(t.args[0]), t.args[1], len(t.args) > 2 and t.args[2] is TRUE, idx, rsum)

    def e_meanax(self, t, idx):
        x = num1(t.args[0])
        return self.along(x, t.args[1], len(t.args) > 2 and t.args[2] is TRUE, idx, lambda b, v, n: mul(rsum(b, v, n), power(n, -1)))

    def e_cumsum(self, t, idx):
        return self.cum(t.args[0], ZERO, idx)

    def cum(self, x, ax, idx):
        s = self.shape(x)
        k = self.axis(s, ax)
        v = fresh()
        b = self.E(num1(x), idx[:k] + (v,) + idx[k + 1:])
        # entries before e0, corrected by the entries between e0 and the index e0 + c
        p = dict(T._as_poly(idx[k]))
        c = p.pop(ONE, 0)
        e0 = add(*[scale(m, q) for m, q in p.items()]) if p else ZERO
        if abs(c) > 6 or int(c) != c:
            raise Unknown("prefix sum")
        c = int(c)
        fix = [T.subst(b, {v: add(e0, num(j))}) for j in range(0, c + 1)] + [scale(T.subst(b, {v: add(e0, num(j))}), -1) for j in range(c + 1, 0)]
        if e0 is ZERO:
            return add(*fix) if fix else ZERO
        return add(rsum(T.ite(T.cmp("lt", v, e0), b, ZERO), v, s[k]), *fix)

    def e_sort(self, t, idx):
        return self.sortd(t.args[0], num(-1), "sorted", idx)

    def e_argsort(self, t, idx):
        return self.sortd(t.args[0], num(-1), "argsorted", idx)

    def sortd(self, x, ax, kind, idx):
        s = self.shape(x)
        k = self.axis(s, ax)
        v = fresh()
        b = self.E(x, idx[:k] + (v,) + idx[k + 1:])
        r = binder(kind, b, v, s[k])
        return scal(mk("ent", r, (idx[k],)))

    def e_call(self, t, idx):
        name, a, kw = t.args
        kw = dict(kw)
        ax = kw.get("axis", a[1] if len(a) > 1 else NONE)
        keep = kw.get("keepdims", FALSE) is TRUE
        short = name[3:] if name.startswith("np.") else name
        if short in ("max", "min", "all", "any", "amax", "amin") and not (set(kw) - {"axis", "keepdims"}):
            kind = short.replace("amax", "max").replace("amin", "min")
            if ax is NONE:
                return self.overall(a[0], lambda r, v, n: self.red(kind, r, v, n))
            return self.along(a[0], ax, keep, idx, lambda b, v, n: self.red(kind, b, v, n))
        if short in ("argmax", "argmin") and not (set(kw) - {"axis", "keepdims"}):
            if ax is NONE:
                return self.arg0(t.args[1][0] and mk(short, a[0]), short)
            return self.along(a[0], ax, keep, idx, lambda b, v, n: self.argred(short, b, v, n))
        if short in ("sum", "mean") and not (set(kw) - {"axis", "keepdims"}) and is_num(ax):
            f = rsum if short == "sum" else (lambda b, v, n: mul(rsum(b, v, n), power(n, -1)))
            return self.along(num1(a[0]), ax, keep, idx, f)
        if short == "cumsum" and is_num(ax) and not (set(kw) - {"axis"}):
            return self.cum(a[0], ax, idx)
        if short in ("sort", "argsort") and not (set(kw) - {"axis"}) and (ax is NONE or is_num(ax)):
            return self.sortd(a[0], ax if ax is not NONE else num(-1), short + "ed" if short == "sort" else "argsorted", idx)
        if short == "full":
            return self.E(a[1], ())
        if short == "diag" and len(a) == 1 and not kw:
            s = self.shape(a[0])
            if len(s) == 2:
                return self.E(a[0], (idx[0], idx[0]))
            return T.ite(T.cmp("eq", idx[0], idx[1]), self.E(a[0], (idx[0],)), ZERO)
        if short == "outer" and len(a) == 2:
            return mul(self.E(a[0], (idx[0],)), self.E(a[1], (idx[1],)))
        if short in ("rad2deg", "deg2rad", "arccos", "log10", "log2", "sqrt", "angle", "arctan2"):
            return scal(mk("call", name, tuple(self.sub(x, idx) for x in a), ()))
        if short == "expand_dims" and is_num(ax):
            k = int(ax.args[0]) % (self.rank(a[0]) + 1)
            return self.E(a[0], idx[:k] + idx[k + 1:])
        return self.opaque(t, idx)


def num1(x):
    """booleans as numbers"""
    return T.mk("ite", x, ONE, ZERO) if T.isb(x) else x


def squared(b):
    if b.op == "prod" and len(b.args[0]) == 1:
        (f, e), = b.args[0]
        # x^(k/2) is defined only where x is non-negative
        if e.denominator == 2 and e.numerator > 0 and (T.CTX.real or T.is_real(f)):
            return f
    return b


def renorm(t):
    """binder heights recomputed after a substitution"""
    def f(x):
        if x.op != "red":
            return None
        kind, h, body, n = x.args
        v = fresh()
        b = renorm(T.subst(body, {beta(h): v}))
        if kind == "sum":
            return rsum(b, v, n)
        r = binder(kind, b, v, n)
        return r.args[2] if r.op == "cmp" else r
    return T.rebuild(t, f)


def attained(e):
    """f(argmin_k f(k)) -> min_k f(k)"""
    if T.isb(e):
        return e
    for x in T.subterms(e):
        if x.op == "red" and x.args[0] in ("argmin", "argmax"):
            kind, h, body, n = x.args
            v = fresh()
            g = renorm(T.subst(e, {x: v}))
            b = T.subst(body, {beta(h): v})
            if x in T.subterms(g):
                continue
            k = kind[3:]
            if g is b or sub(g, b) is ZERO:
                return binder(k, b, v, n)
            s = squared(g)
            if s is not g and (s is b or sub(s, b) is ZERO):
                return power(binder(k, b, v, n), g.args[0][0][1])
    return e


def entry_equal(a, b):
    """(True | (shape-difference?, cell) | None, text)"""
    from . import eqv
    w = PW()
    sa, sb = w.shape(a), w.shape(b)
    if len(sa) != len(sb):
        return None, "ranks differ"
    for x, y in zip(sa, sb):
        if x is not y and sub(x, y) is not ZERO:
            return None, "shapes %s and %s" % (T.show(x), T.show(y))
    if sa and all(is_num(d) for d in sa):
        n = 1
        for d in sa:
            n *= int(d.args[0])
        if n <= 64:
            for j in itertools.product(*[range(int(d.args[0])) for d in sa]):
                i = tuple(num(q) for q in j)
                x, y = w.E(a, i), w.E(b, i)
                if x is y or (not T.isb(x) and not T.isb(y) and sub(x, y) is ZERO):
                    continue
                break
            else:
                return True, "same %d entries" % n
    idx = tuple(fresh() for _ in sa)
    ea, eb = attained(w.E(a, idx)), attained(w.E(b, idx))
    if T.isb(ea) and T.isb(eb):
        if ea is eb:
            return True, "same entries"
        ea, eb = T.ite(ea, ONE, ZERO), T.ite(eb, ONE, ZERO)
    if ea is eb or T.sub(ea, eb) is ZERO:
        return True, "same entries"
    try:
        r = eqv.elementwise_equal(ea, eb)
        if r is True:
            return True, "same entries on every ordering cell"
        return False, "entry %s vs %s" % (T.show(r[1], 6), T.show(r[2], 6))
    except eqv.TooMany:
        return False, "entry %s vs %s" % (T.show(ea, 6), T.show(eb, 6))
