"""Linear-map summaries.

A term t that depends linearly on an array symbol x is summarised by its
kernel: the entry of t at index o is a finite sum of monomials

    coef(o, bound) * [affine conditions] * x[index(o, bound)]      (or conj x)

summed over bound index variables.  Two maps are equal when the canonical
forms of their kernels coincide for all sizes; the adjoint of a kernel is
obtained by exchanging the two index tuples and conjugating the coefficient.
All sizes stay symbolic."""
from fractions import Fraction
import itertools
from . import term as T
from . import shape as S
from . import prims
from .term import mk, num, add, sub, mul, neg, power, conj, ZERO, ONE, NONE, Term


class Unknown(Exception):
    pass


class NonLinear(Exception):
    pass


# ----------------------------------------------------------- integer affine
def fdiv_norm(t):
    """canonical floor(e/2) for integer e"""
    def f(x):
        if x.op == "floordiv" and T.is_num(x.args[1]) and x.args[1].args[0] == 2:
            e = fdiv_norm(x.args[0])
            p = T._as_poly(e)
            if any(c.denominator != 1 for c in p.values()):
                return None
            out = ZERO
            rest = {}
            for m, c in p.items():
                h, r = divmod(int(c), 2)
                out = add(out, T.scale(m, h))
                if r:
                    rest[m] = Fraction(1)
            if not rest:
                return out
            c0 = rest.pop(ONE, None)
            if not rest:
                return out            # floor(1/2) = 0
            e0 = T._from_poly(rest)
            fl = mk("floordiv", e0, num(2))
            T.CTX.scalars.add(fl)
            if c0 is None:
                return add(out, fl)
            return add(out, sub(e0, fl))
        return None
    return T.rebuild(t, f)


class Facts:
    def __init__(self):
        self.lb = {}          # sym -> lower bound
        self.blb = {}         # bound index variables
        self.extra = []       # terms >= 0

    def lower(self, s):
        return self.lb.get(s, None)

    def nonneg(self, e, depth=3):
        """prove e >= 0"""
        p = T._as_poly(e)
        c = Fraction(0)
        ok = True
        for m, k in p.items():
            if m is ONE:
                c += k
                continue
            l = self.mono_lb(m)
            if l is None or k < 0:
                ok = False
                break
            c += k * l
        if ok and c >= 0:
            return True
        if depth == 0:
            return False
        ms = set(p) - {ONE}
        for f in self.extra + self._floor_facts(ms):
            fm = set(T._as_poly(f)) - {ONE}
            if fm & {m for m in ms if p[m] < 0 or self.mono_lb(m) is None}:
                if self.nonneg(sub(e, f), depth - 1):
                    return True
        return False

    def _floor_facts(self, ms):
        out = []
        for m in ms:
            if m.op == "floordiv" and T.is_num(m.args[1]):
                d = m.args[1]
                # d*fl <= e  and  d*fl >= e - d + 1
                out.append(T.scale(sub(m.args[0], mul(d, m)), Fraction(1, int(d.args[0]))))
                out.append(add(sub(mul(d, m), m.args[0]), sub(d, ONE)))
        return out

    def mono_lb(self, m):
        if m in self.lb:
            return self.lb[m]
        if m in self.blb:
            return self.blb[m]
        if m.op in ("dim", "size"):
            return 1
        if m.op == "prod":
            r = Fraction(1)
            for f, e in m.args[0]:
                l = self.mono_lb(f)
                if l is None or l < 0 or e < 0 or e.denominator != 1:
                    return None
                r *= Fraction(l) ** int(e)
            return r
        if m.op == "floordiv" and self.nonneg(m.args[0], 2):
            return 0
        return None


FACTS = Facts()


class Mono:
    __slots__ = ("coef", "H", "eq", "x", "cj", "bound")

    def __init__(self, coef=ONE, H=(), eq=(), x=None, cj=False, bound=()):
        self.coef, self.H, self.eq, self.x, self.cj, self.bound = coef, tuple(H), tuple(eq), x, cj, tuple(bound)

    def scaled(self, c, H=(), eq=(), bound=()):
        return Mono(mul(self.coef, c), self.H + tuple(H), self.eq + tuple(eq), self.x, self.cj, self.bound + tuple(bound))

    def __repr__(self):
        return "%s%s%s Σ%s x[%s]%s" % (T.show(self.coef), "".join(" [%s>=0]" % T.show(h) for h in self.H),
                                      "".join(" [%s=0]" % T.show(h) for h in self.eq), self.bound,
                                      None if self.x is None else ",".join(T.show(i) for i in self.x), "*" if self.cj else "")


_bv = itertools.count()


def fresh_bound(tag="l"):
    v = T.sym("%s%d'" % (tag, next(_bv)))
    T.CTX.scalars.add(v)
    T.CTX.nonneg.add(v)
    INTS.add(v)
    FACTS.blb[v] = 0
    return v


INTS = set()


def index_var(name):
    v = T.sym(name)
    T.CTX.scalars.add(v)
    T.CTX.nonneg.add(v)
    INTS.add(v)
    return v


def ent(a, idx):
    """entry of an uninterpreted array"""
    t = mk("ent", a, tuple(idx))
    T.CTX.scalars.add(t)
    if a in REALS:
        REAL_ENT.add(t)
    return t


REALS = set()
REAL_ENT = set()
INDEX = {}          # index array symbol -> exclusive upper bound of its (distinct) entries
OPDIMS = {}         # operator symbol -> (rank of outputs, rank of inputs), default (1, 1)


def kconj(c):
    """conjugate of a scalar coefficient"""
    if c.op == "num" or c in INTS:
        return c
    if c is T.IMAG:
        return neg(c)
    if c.op == "sum":
        return add(*[T.scale(kconj(m), k) for m, k in c.args[0]])
    if c.op == "prod":
        return mul(*[power(kconj(f), e) for f, e in c.args[0]])
    if c.op == "conj":
        return c.args[0]
    if c.op == "expi":          # exp(i*theta), theta real
        return expi(neg(c.args[0]))
    if c.op in ("abs", "dim", "size", "floordiv", "n2", "rentry"):
        return c
    if c.op == "ker" and c.args[0] in REALS:
        return c
    if c.op == "ent" and (c.args[0] in REALS or T.is_real(c.args[0])):
        return c
    if c in REALS or c is T.sym("pi"):
        return c
    if c in T.CTX.nonneg or T.is_real(c):
        return c
    t = mk("conj", c)
    T.CTX.scalars.add(t)
    return t


def expi(theta):
    """exp(i theta) with theta a real polynomial; integer multiples of 2 pi dropped"""
    PI = T.sym("pi")
    p = T._as_poly(theta)
    out = {}
    for m, c in p.items():
        d = T._as_prod(m)
        if d.get(PI) == 1:
            rest = {f: e for f, e in d.items() if f is not PI}
            if all(f in INTS or f in FACTS.lb or f.op in ("dim",) for f in rest) and \
                    all(e > 0 and e.denominator == 1 for e in rest.values()) and c.denominator == 1:
                c = Fraction(int(c) % 2)
                if c == 0:
                    continue
        out[m] = c
    th = T._from_poly(out)
    if th is ZERO:
        return ONE
    t = mk("expi", th)
    T.CTX.scalars.add(t)
    return t


def merge_exp(c):
    """combine exp factors inside products of a coefficient"""
    def mono(m):
        d = T._as_prod(m)
        th = ZERO
        rest = ONE
        seen = False
        for f, e in d.items():
            if f.op == "expi":
                th = add(th, T.scale(f.args[0], e))
                seen = True
            else:
                rest = mul(rest, power(f, e))
        if not seen:
            return m
        return mul(rest, expi(th))
    return add(*[T.scale(mono(m), k) for m, k in T._as_poly(c).items()]) if c is not ZERO else ZERO


# ------------------------------------------------------------------ entries
class Kern:
    """entries of terms as monomials in x"""

    def __init__(self, xs, interp=None, real_data=False):
        self.xs = set(xs)
        self.env = {}
        self.interp = interp
        self.loops = {}
        if interp is not None:
            for r in interp.loops:
                for path, h in flat(r.head):
                    if isinstance(h, Term):
                        self.loops[h] = (r, path)

    def dep(self, t):
        if any(s in self.xs for s in T.subterms(t)):
            return True
        return any(s in self.env for s in T.subterms(t)) or any(s in self.loops for s in T.subterms(t))

    def shape(self, t):
        s = S.shape_of(t)
        if s is None:
            raise Unknown("shape of %s" % T.show(t, 3))
        return s

    def E(self, t, idx):
        """list of Mono for entry t[idx]"""
        if t is ZERO:
            return []
        if t in self.xs:
            return [Mono(x=(t,) + tuple(idx))]
        if t in self.env:
            return self.env[t](idx)
        if t in self.loops:
            return self.loop_entry(t, idx)
        o = t.op
        m = getattr(self, "k_" + o, None)
        if m is not None:
            try:
                return m(t, idx)
            except Unknown:
                if self.dep(t):
                    raise
                return [Mono(self.data(t, idx))]
        if not self.dep(t):
            return [Mono(self.data(t, idx))]
        raise Unknown("operation %s" % o)

    def data(self, t, idx):
        if T.is_scalar(t) or S.shape_of(t) == ():
            return self.scalar(t)
        if any(x.op in ("unbound", "unresolved") for x in T.subterms(t)):
            raise Unknown("unresolved name")
        if T.has_opaque(t):
            raise Unknown("loop state")
        return ent(t, idx)

    def scalar(self, t):
        if T.has_opaque(t):
            raise Unknown("loop state")
        return fdiv_norm(t)

    def k_num(self, t, idx):
        return [Mono(t)]

    def k_const(self, t, idx):
        if t is T.TRUE:
            return [Mono(ONE)]
        if t is T.FALSE:
            return []
        raise Unknown("constant")

    def k_sym(self, t, idx):
        return [Mono(self.data(t, idx))]

    def sub_idx(self, t, idx):
        """broadcast: trailing indices, unit dims -> 0"""
        if T.is_scalar(t):
            return ()
        s = self.shape(t)
        if len(s) == 0:
            return ()
        ii = tuple(idx[len(idx) - len(s):])
        if len(ii) != len(s):
            raise Unknown("broadcast rank")
        return tuple(ZERO if d is ONE else i for d, i in zip(s, ii))

    def k_sum(self, t, idx):
        out = []
        for m, c in t.args[0]:
            for q in self.E(m, self.sub_idx(m, idx)):
                out.append(q.scaled(num(c)))
        return out

    def k_prod(self, t, idx):
        acc = [Mono()]
        for f, e in t.args[0]:
            es = self.E(f, self.sub_idx(f, idx))
            if e != 1:
                if any(q.x is not None for q in es):
                    raise NonLinear("power of the argument")
                if len(es) == 1 and not es[0].H and not es[0].eq and not es[0].bound:
                    es = [Mono(power(es[0].coef, e))]
                else:
                    raise Unknown("power of piecewise data")
            new = []
            for a in acc:
                for b in es:
                    if a.x is not None and b.x is not None:
                        raise NonLinear("product of two argument entries")
                    x, cj = (a.x, a.cj) if a.x is not None else (b.x, b.cj)
                    new.append(Mono(mul(a.coef, b.coef), a.H + b.H, a.eq + b.eq, x, cj, a.bound + b.bound))
            acc = new
        return acc

    def _unary(self, t, idx, f):
        es = self.E(t.args[0], idx)
        if any(q.x is not None for q in es):
            raise NonLinear(t.op)
        if len(es) == 1 and not es[0].H and not es[0].eq and not es[0].bound:
            return [Mono(f(es[0].coef))]
        if not es:
            return [Mono(f(ZERO))]
        raise Unknown("function of piecewise data")

    def k_abs(self, t, idx):
        return self._unary(t, idx, lambda c: T.abs_(c))

    def k_exp(self, t, idx):
        def f(c):
            p = T._as_poly(c)
            im, re = ZERO, ZERO
            for m, k in p.items():
                d = T._as_prod(m)
                if d.get(T.IMAG) == 1:
                    im = add(im, T.scale(T._from_prod({a: e for a, e in d.items() if a is not T.IMAG})[1], k))
                else:
                    re = add(re, T.scale(m, k))
            r = expi(im)
            if re is not ZERO:
                e = mk("exp", re)
                T.CTX.scalars.add(e)
                r = mul(r, e)
            return r
        return self._unary(t, idx, f)

    def _fn(name):
        def g(self, t, idx):
            def f(c):
                r = mk(name, c)
                T.CTX.scalars.add(r)
                return r
            return self._unary(t, idx, f)
        return g
    k_cos, k_sin, k_log, k_sign = _fn("cos"), _fn("sin"), _fn("log"), _fn("sign")

    def k_conj(self, t, idx):
        out = []
        for q in self.E(t.args[0], idx):
            out.append(Mono(kconj(q.coef), q.H, q.eq, q.x, (not q.cj) if q.x is not None else False, q.bound))
        return out

    def k_real(self, t, idx):
        a = self.E(t.args[0], idx)
        b = self.k_conj(t, idx)
        return [q.scaled(num(Fraction(1, 2))) for q in a + b]

    def k_imag(self, t, idx):
        a = self.E(t.args[0], idx)
        b = self.k_conj(t, idx)
        h = mul(num(Fraction(-1, 2)), T.IMAG)
        return [q.scaled(h) for q in a] + [q.scaled(neg(h)) for q in b]

    def k_T(self, t, idx):
        return self.E(t.args[0], tuple(reversed(idx)))

    def k_zeros(self, t, idx):
        return []

    def k_empty(self, t, idx):
        c = mk("uninit", t, tuple(idx))
        T.CTX.scalars.add(c)
        return [Mono(c)]

    def k_ones(self, t, idx):
        return [Mono(ONE)]

    def k_eye(self, t, idx):
        d = sub(idx[0], idx[1])
        return [Mono(ONE, H=(d, neg(d)))]

    def k_arange(self, t, idx):
        a = t.args
        i = idx[0]
        if len(a) == 1:
            return [Mono(i)]
        if len(a) == 2:
            return [Mono(add(a[0], i))]
        return [Mono(add(a[0], mul(i, a[2])))]

    def k_array(self, t, idx):
        out = []
        items = t.args[0].args[0]
        for k, it in enumerate(items):
            d = sub(idx[0], num(k))
            H = (d, neg(d)) if len(items) > 1 else ()
            for q in self.E(it, tuple(idx[1:])):
                out.append(q.scaled(ONE, H=H))
        return out

    def k_ite(self, t, idx):
        c = t.args[0]
        if not T.is_scalar(c) and S.shape_of(c) not in ((), None):
            # elementwise mask over an index comparison
            hs = self.mask(c, idx)
            out = []
            a = self.E(t.args[1], self.sub_idx(t.args[1], idx))
            b = self.E(t.args[2], self.sub_idx(t.args[2], idx))
            for q in a:
                out.append(q.scaled(ONE, H=hs))
            for q in b:
                out.append(q)
                out.append(q.scaled(num(-1), H=hs))
            return out
        raise Unknown("unsplit conditional")

    def mask(self, c, idx):
        if c.op == "cmp" and c.args[0] in ("lt", "le", "eq"):
            es = self.E(c.args[1], self.sub_idx(c.args[1], idx))
            v = ZERO
            for q in es:
                if q.x is not None or q.H or q.eq or q.bound:
                    raise Unknown("data dependent mask")
                v = add(v, q.coef)
            if c.args[0] == "lt":
                return (sub(neg(v), ONE),)
            if c.args[0] == "le":
                return (neg(v),)
            return (v, neg(v))
        if c.op == "and":
            r = ()
            for x in c.args[0]:
                r += self.mask(x, idx)
            return r
        raise Unknown("mask")

    # contraction --------------------------------------------------------
    def over(self, n, tag="l"):
        l = fresh_bound(tag)
        return l, (l, sub(sub(n, ONE), l))

    def contract(self, a, ia, b, ib, H, bound, ca=False):
        A = self.E(a, ia)
        B = self.E(b, ib)
        out = []
        for p in A:
            if ca:
                p = Mono(kconj(p.coef), p.H, p.eq, p.x, not p.cj if p.x is not None else False, p.bound)
            for q in B:
                if p.x is not None and q.x is not None:
                    raise NonLinear("product of two argument entries")
                x, cj = (p.x, p.cj) if p.x is not None else (q.x, q.cj)
                out.append(Mono(mul(p.coef, q.coef), p.H + q.H + H, p.eq + q.eq, x, cj, p.bound + q.bound + bound))
        return out

    def k_mm(self, t, idx):
        a = t.args[0]
        b = t.args[1] if len(t.args) == 2 else mk("mm", *t.args[1:])
        sa, sb = self.shape(a), self.shape(b)
        if len(sa) == 2:
            l, H = self.over(sa[1])
            return self.contract(a, (idx[0], l), b, (l,) + tuple(idx[1:]), H, (l,))
        if len(sa) == 1:
            l, H = self.over(sa[0])
            return self.contract(a, (l,), b, (l,) + tuple(idx), H, (l,))
        raise Unknown("mm rank")

    def k_vdot(self, t, idx):
        a, b = t.args
        s = S.shape_of(a) or S.shape_of(b)
        if s is None:
            raise Unknown("vdot shape")
        ls, H = [], ()
        for d in s:
            l, h = self.over(d)
            ls.append(l)
            H += h
        return self.contract(a, self.sub_idx(a, ls), b, self.sub_idx(b, ls), H, tuple(ls), ca=True)

    def k_n2(self, t, idx):
        if self.dep(t):
            raise NonLinear("norm of the argument")
        return [Mono(t)]

    def k_sum0(self, t, idx):
        s = self.shape(t.args[0])
        ls, H = [], ()
        for d in s:
            l, h = self.over(d)
            ls.append(l)
            H += h
        return [q.scaled(ONE, H=H, bound=tuple(ls)) for q in self.E(t.args[0], tuple(ls))]

    def k_sumax(self, t, idx):
        x, ax, keep = t.args
        s = self.shape(x)
        if not T.is_num(ax):
            raise Unknown("axis")
        k = int(ax.args[0]) % len(s)
        l, H = self.over(s[k])
        rest = list(idx)
        if keep is T.TRUE:
            rest.pop(k)
        ii = tuple(rest[:k]) + (l,) + tuple(rest[k:])
        return [q.scaled(ONE, H=H, bound=(l,)) for q in self.E(x, ii)]

    def k_cumsum(self, t, idx):
        l = fresh_bound()
        H = (l, sub(idx[0], l))
        return [q.scaled(ONE, H=H, bound=(l,)) for q in self.E(t.args[0], (l,))]

    def k_flip(self, t, idx):
        s = self.shape(t.args[0])
        return self.E(t.args[0], (sub(sub(s[0], ONE), idx[0]),) + tuple(idx[1:]))

    def k_concat(self, t, idx):
        ax = 0
        if len(t.args) > 1:
            if not T.is_num(t.args[1]):
                raise Unknown("axis")
            ax = int(t.args[1].args[0])
        off = ZERO
        out = []
        for p in t.args[0].args[0]:
            if p is ZERO:
                raise Unknown("concat of a zero of unknown length")
            s = self.shape(p)
            if len(s) == 0:
                d = ONE
            else:
                d = s[ax]
            i = idx[ax]
            H = (sub(i, off), sub(add(off, d), add(i, ONE)))
            ii = list(idx)
            ii[ax] = sub(i, off)
            for q in self.E(p, tuple(ii) if len(s) else ()):
                out.append(q.scaled(ONE, H=H))
            off = add(off, d)
        return out

    def pos(self, v, d):
        """python index normalisation of v against dimension d"""
        v = fdiv_norm(v)
        if FACTS.nonneg(v):
            return v
        if FACTS.nonneg(sub(neg(v), ONE)):
            return add(v, d)
        raise Unknown("sign of index %s" % T.show(v))

    def k_idx(self, t, idx):
        b, i = t.args
        s = self.shape(b)
        items = list(i.args[0]) if i.op == "tuple" else [i]
        nsl = len([x for x in items if x is not NONE])
        ell = [k for k, x in enumerate(items) if x.op == "const" and x.args[0] == "ellipsis"]
        if ell:
            k = ell[0]
            items[k:k + 1] = [prims.FULL] * (len(s) - (nsl - 1))
            nsl = len(s)
        items += [prims.FULL] * (len(s) - nsl)
        ii = []
        k = 0     # position in idx
        d = 0     # position in s
        adv = None
        for it in items:
            if it is NONE:
                k += 1
                continue
            if it.op == "slice":
                lo, hi, st = it.args
                step = 1
                if st is not NONE:
                    if not T.is_num(st):
                        raise Unknown("slice step")
                    step = int(st.args[0])
                if step > 0:
                    lo2 = ZERO if lo is NONE else self.pos(lo, s[d])
                else:
                    lo2 = sub(s[d], ONE) if lo is NONE else self.pos(lo, s[d])
                ii.append(add(lo2, T.scale(idx[k], step)))
                k += 1
                d += 1
                continue
            sh = S.shape_of(it)
            if sh is None:
                raise Unknown("index shape")
            if T.isb(it):
                raise Unknown("boolean index")
            if sh == ():
                ii.append(self.pos(it, s[d]))
                d += 1
                continue
            if len(sh) != 1:
                raise Unknown("index rank")
            if adv is None:
                adv = idx[k]
                k += 1
            ii.append(self.plain(self.E(it, (adv,))))
            d += 1
        return self.E(b, tuple(ii))

    def plain(self, es):
        """value of an index expression without guards"""
        v = ZERO
        for q in es:
            if q.H or q.eq or q.bound or q.x is not None:
                raise Unknown("index array")
            v = add(v, q.coef)
        return v

    def sel(self, i, s, idx):
        """conditions for idx to be inside the index expression i and the
        value index: returns (H, eq, bound, vidx)"""
        items = list(i.args[0]) if i.op == "tuple" else [i]
        items += [prims.FULL] * (len(s) - len(items))
        H, eq, bound, v = (), (), (), []
        adv = None
        for it, d, o in zip(items, s, idx):
            if it.op == "slice":
                lo, hi, st = it.args
                if st is not NONE:
                    raise Unknown("strided update")
                lo2 = ZERO if lo is NONE else self.pos(lo, d)
                hi2 = d if hi is NONE else self.pos(hi, d)
                H += (sub(o, lo2), sub(hi2, add(o, ONE)))
                v.append(sub(o, lo2))
                continue
            sh = S.shape_of(it)
            if sh == ():
                p = self.pos(it, d)
                H += (sub(o, p), sub(p, o))
                continue
            if sh is None or len(sh) != 1 or T.isb(it):
                raise Unknown("update index")
            if adv is None:
                adv = fresh_bound()
                bound += (adv,)
                H += (adv, sub(sh[0], add(adv, ONE)))
                v.append(adv)
            eq += (sub(self.plain(self.E(it, (adv,))), o),)
        return H, eq, bound, v

    def k_at_add(self, t, idx):
        b, i, v = t.args
        s = self.shape(b)
        H, eq, bound, vi = self.sel(i, s, idx)
        out = self.E(b, idx)
        vi = self.sub_idx(v, vi) if not T.is_scalar(v) else ()
        for q in self.E(v, vi):
            out.append(q.scaled(ONE, H=H, eq=eq, bound=bound))
        return out

    def k_at_set(self, t, idx):
        b, i, v = t.args
        s = self.shape(b)
        H, eq, bound, vi = self.sel(i, s, idx)
        base = self.E(b, idx)
        out = []
        if base:
            if bound:
                if all(any(f.op == "uninit" for f in T.subterms(q.coef)) for q in base):
                    # permutation scatter into an uninitialised buffer
                    base = []
                else:
                    raise Unknown("scatter over non-zero base")
            for q in base:
                out.append(q)
                out.append(q.scaled(num(-1), H=H))
        vi = self.sub_idx(v, vi) if not T.is_scalar(v) else ()
        for q in self.E(v, vi):
            out.append(q.scaled(ONE, H=H, eq=eq, bound=bound))
        return out

    def k_scatter(self, t, idx):
        n, I, v = t.args
        sh = self.shape(v)
        l, H = self.over(sh[0])
        eq = (sub(self.plain(self.E(I, (l,))), idx[0]),)
        return [q.scaled(ONE, H=H, eq=eq, bound=(l,)) for q in self.E(v, (l,))]

    def k_along(self, t, idx):
        bv, body, ax, x = t.args
        s = self.shape(x)
        if not T.is_num(ax):
            raise Unknown("axis")
        k = int(ax.args[0]) % len(s)
        old = self.env.get(bv)
        self.env[bv] = lambda j: self.E(x, tuple(idx[:k]) + tuple(j) + tuple(idx[k + 1:]))
        try:
            return self.E(body, (idx[k],))
        finally:
            if old is None:
                del self.env[bv]
            else:
                self.env[bv] = old

    def k_vmapped(self, t, idx):
        body, used, oa = t.args
        if not T.is_num(oa):
            raise Unknown("out_axes")
        k = int(oa.args[0])
        v = idx[k]
        rest = tuple(idx[:k]) + tuple(idx[k + 1:])
        saved = {}
        for b, ax, arr in used:
            if not T.is_num(ax):
                raise Unknown("in_axes")
            a = int(ax.args[0])
            saved[b] = self.env.get(b)
            self.env[b] = (lambda arr, a: lambda j: self.E(arr, tuple(j[:a]) + (v,) + tuple(j[a:])))(arr, a)
        try:
            return self.E(body, rest)
        finally:
            for b, o in saved.items():
                if o is None:
                    del self.env[b]
                else:
                    self.env[b] = o

    def k_reshape(self, t, idx):
        x = t.args[0]
        s = self.shape(x)
        so = self.shape(t)
        return self._reflat(x, s, so, idx)

    def _reflat(self, x, s, so, idx):
        fo, st = ZERO, ONE
        for i, d in reversed(list(zip(idx, so))):
            fo = add(fo, mul(i, st))
            st = mul(st, d)
        ls, H, fi, st = [], (), ZERO, ONE
        for d in reversed(s):
            l, h = self.over(d)
            ls.insert(0, l)
            H += h
            fi = add(fi, mul(l, st))
            st = mul(st, d)
        return [q.scaled(ONE, H=H, eq=(sub(fo, fi),), bound=tuple(ls)) for q in self.E(x, tuple(ls))]

    def k_ravel(self, t, idx):
        s = self.shape(t.args[0])
        return self._reflat(t.args[0], s, (mul(*s),), idx)

    def bank(self, lo, hi, k, n, i, l):
        """coefficient of the one-level analysis filter bank; the synthesis
        bank of the same orthogonal wavelet is its adjoint"""
        tag = mk("bank", lo, hi)
        if lo.op == "attr" and hi.op == "attr" and lo.args[0] is hi.args[0]:
            if (lo.args[1], hi.args[1]) == ("dec_lo", "dec_hi"):
                tag = mk("bank", lo.args[0], T.const("dec"))
            elif (lo.args[1], hi.args[1]) == ("rec_lo", "rec_hi"):
                tag = mk("bank", lo.args[0], T.const("rec"))
        c = mk("ker", mk("fb", tag, num(k), n), (i, l))
        T.CTX.scalars.add(c)
        REALS.add(c)
        return c

    def k_dwt(self, t, idx):
        x, lo, hi, k = t.args
        n = self.shape(x)[0]
        l, H = self.over(n)
        c = self.bank(lo, hi, int(k.args[0]), n, idx[0], l)
        return [q.scaled(c, H=H, bound=(l,)) for q in self.E(x, (l,))]

    def k_idwt(self, t, idx):
        ca, cd, lo, hi = t.args
        out = []
        for k, x in ((0, ca), (1, cd)):
            d = self.shape(x)[0]
            l, H = self.over(d)
            c = self.bank(lo, hi, k, T.scale(d, 2), l, idx[0])
            # adjoint pairing: reconstruction filters name the same bank
            c = T.rebuild(c, lambda s: {"rec": T.const("dec"), "dec": T.const("rec")}.get(s.args[1]) if s.op == "const" and s.args[0] == "str" else None)
            T.CTX.scalars.add(c)
            REALS.add(c)
            out += [q.scaled(c, H=H, bound=(l,)) for q in self.E(x, (l,))]
        return out

    def k_app(self, t, idx):
        op, d, x = t.args
        s = self.shape(x)
        no, ni = OPDIMS.get(op, (1, 1))
        if d != "times":
            no, ni = ni, no
        ls, H = [], ()
        for k in range(ni):
            l, h = self.over(s[k])
            ls.append(l)
            H = H + tuple(h)
        ls = tuple(ls)
        out, rest = tuple(idx[:no]), tuple(idx[no:])
        c = mk("ker", op, out + ls if d == "times" else ls + out)
        T.CTX.scalars.add(c)
        if d != "times":
            c = kconj(c)
        return [q.scaled(c, H=H, bound=ls) for q in self.E(x, ls + rest)]

    # library calls -------------------------------------------------------
    def k_call(self, t, idx):
        name, a, kw = t.args
        kw = dict(kw)
        m = getattr(self, "c_" + name.replace(".", "_"), None)
        if m is not None:
            return m(t, a, kw, idx)
        if not self.dep(t):
            return [Mono(self.data(t, idx))]
        raise Unknown("library call %s" % name)

    def c_np_pad(self, t, a, kw, idx):
        mode = a[2] if len(a) > 2 else kw.get("mode", T.const("constant"))
        if mode is not T.const("constant") or "constant_values" in kw:
            raise Unknown("pad mode")
        s = self.shape(a[0])
        w = a[1]
        if w.op != "tuple":
            ps = [(w, w)] * len(s)
        elif w.args[0][0].op == "tuple":
            ps = [p.args[0] for p in w.args[0]]
        else:
            ps = [w.args[0]] * len(s)
        if len(ps) != len(s):
            raise Unknown("pad rank")
        H, ii = (), []
        for i, d, (b, _) in zip(idx, s, ps):
            H += (sub(i, b), sub(add(b, d), add(i, ONE)))
            ii.append(sub(i, b))
        return [q.scaled(ONE, H=H) for q in self.E(a[0], tuple(ii))]

    def c_np_diff(self, t, a, kw, idx):
        if len(a) > 1 or set(kw) - {"prepend", "append", "axis"}:
            raise Unknown("diff options")
        s = self.shape(a[0])
        if len(s) != 1:
            raise Unknown("diff rank")
        parts = []
        if "prepend" in kw:
            parts.append(kw["prepend"])
        parts.append(a[0])
        if "append" in kw:
            parts.append(kw["append"])
        parts = [mk("array", prims.tup([p])) if S.shape_of(p) == () else p for p in parts]
        y = mk("concat", prims.tup(parts)) if len(parts) > 1 else parts[0]
        hi = self.E(y, (add(idx[0], ONE),))
        lo = self.E(y, (idx[0],))
        return hi + [q.scaled(num(-1)) for q in lo]

    def c_np_insert(self, t, a, kw, idx):
        if len(a) != 3 or a[1] is not ZERO or kw:
            raise Unknown("insert position")
        v = a[2]
        if S.shape_of(v) == () or T.is_scalar(v):
            v = mk("array", prims.tup([v]))
        return self.k_concat(mk("concat", prims.tup([v, a[0]])), idx)

    def c_np_repeat(self, t, a, kw, idx):
        s = self.shape(a[0])
        ax = kw.get("axis")
        if ax is None or not T.is_num(ax):
            raise Unknown("repeat axis")
        k = int(ax.args[0]) % len(s)
        if s[k] is not ONE:
            raise Unknown("repeat of a long axis")
        ii = list(idx)
        ii[k] = ZERO
        return self.E(a[0], tuple(ii))

    def c_np_roll(self, t, a, kw, idx):
        s = self.shape(a[0])
        if len(s) != 1 and not ("axis" in kw and kw["axis"] is ZERO):
            raise Unknown("roll axis")
        sh = a[1] if len(a) > 1 else kw.get("shift")
        n = s[0]
        if FACTS.nonneg(neg(sh)):
            sh = add(n, sh)
        if not FACTS.nonneg(sh):
            raise Unknown("roll shift")
        i = idx[0]
        out = [q.scaled(ONE, H=(sub(i, sh),)) for q in self.E(a[0], (sub(i, sh),) + tuple(idx[1:]))]
        out += [q.scaled(ONE, H=(sub(sh, add(i, ONE)),)) for q in self.E(a[0], (add(sub(i, sh), n),) + tuple(idx[1:]))]
        return out

    def conv_full(self, x, h, i):
        nx, nh = self.shape(x), self.shape(h)
        if len(nx) != 1 or len(nh) != 1:
            raise Unknown("convolution rank")
        l, H = self.over(nh[0])
        j = sub(i, l)
        H += (j, sub(nx[0], add(j, ONE)))
        return self.contract(h, (l,), x, (j,), H, (l,))

    def c_np_convolve(self, t, a, kw, idx):
        mode = a[2] if len(a) > 2 else kw.get("mode", T.const("full"))
        if mode.op != "const":
            raise Unknown("convolution mode")
        x, h = a[0], a[1]
        if self.dep(h) and not self.dep(x):
            x, h = h, x
        i = idx[0]
        nh = self.shape(h)[0]
        if mode.args[1] == "same":
            i = add(i, fdiv_norm(mk("floordiv", sub(nh, ONE), num(2))))
        elif mode.args[1] == "valid":
            i = add(i, sub(nh, ONE))
        elif mode.args[1] != "full":
            raise Unknown("convolution mode")
        return self.conv_full(x, h, i)

    def c_lax_conv_general_dilated(self, t, a, kw, idx):
        if len(a) != 4 or kw:
            raise Unknown("convolution options")
        x, f, st, pads = a
        if st.op != "tuple" or any(q is not ONE for q in st.args[0]) or pads.op != "tuple":
            raise Unknown("convolution strides")
        sx, sf = self.shape(x), self.shape(f)
        if sf[0] is not ONE or sf[1] is not ONE:
            raise Unknown("convolution channels")
        ls, H, jj = [], (), []
        for i, nf, nx, p in zip(idx[2:], sf[2:], sx[2:], pads.args[0]):
            l, h = self.over(nf)
            j = sub(add(i, l), p.args[0][0])
            H += h + (j, sub(nx, add(j, ONE)))
            ls.append(l)
            jj.append(j)
        return self.contract(f, (ZERO, ZERO) + tuple(ls), x, (ZERO, ZERO) + tuple(jj), H, tuple(ls))

    def _fft(self, t, a, kw, idx):
        n = a[1] if len(a) > 1 else kw.get("n", NONE)
        ax = a[2] if len(a) > 2 else kw.get("axis", num(-1))
        if set(kw) - {"n", "axis"} or not T.is_num(ax):
            raise Unknown("fft options")
        s = self.shape(a[0])
        k = int(ax.args[0]) % len(s)
        d = s[k]
        if n is NONE:
            n = d
        # input truncated or zero padded to n
        if FACTS.nonneg(sub(n, d)):
            L = d
        elif FACTS.nonneg(sub(d, n)):
            L = n
        else:
            raise Unknown("fft length")
        l, H = self.over(L)
        ii = tuple(idx[:k]) + (l,) + tuple(idx[k + 1:])
        return n, k, l, H, ii

    def theta(self, n, i, l):
        return mul(num(2), T.sym("pi"), i, l, power(n, -1))

    def c_fft_fft(self, t, a, kw, idx):
        n, k, l, H, ii = self._fft(t, a, kw, idx)
        w = expi(neg(self.theta(n, idx[k], l)))
        return [q.scaled(w, H=H, bound=(l,)) for q in self.E(a[0], ii)]

    c_fft_rfft = c_fft_fft

    def c_fft_ifft(self, t, a, kw, idx):
        n, k, l, H, ii = self._fft(t, a, kw, idx)
        w = mul(power(n, -1), expi(self.theta(n, idx[k], l)))
        return [q.scaled(w, H=H, bound=(l,)) for q in self.E(a[0], ii)]

    def cconv(self, p, n, fwd, idx):
        """inverse transform of a product of two transforms of length n:
        circular convolution (None when not of that form)"""
        if p.op != "prod" or any(e != 1 for _, e in p.args[0]):
            return None
        fs = [f for f, _ in p.args[0]]
        sc = [f for f in fs if T.is_scalar(f)]
        fs = [f for f in fs if not T.is_scalar(f)]
        if len(fs) != 2:
            return None
        for f in fs:
            if f.op != "call" or f.args[0] != fwd:
                return None
            s = S.shape_of(f.args[1][0])
            if s is None or len(s) != 1:
                return None
            k = dict(f.args[2])
            m = f.args[1][1] if len(f.args[1]) > 1 else k.get("n", s[0])
            if m is not n or s[0] is not n or set(k) - {"n", "axis"} or len(f.args[1]) > 2:
                return None
        h, x = [f.args[1][0] for f in fs]
        if self.dep(h):
            h, x = x, h
        out = []
        i = idx[0]
        for off, g in ((ZERO, lambda l: sub(i, l)), (n, lambda l: sub(sub(l, i), ONE))):
            l, H = self.over(n)
            out += self.contract(h, (l,), x, (add(sub(i, l), off),), H + (g(l),), (l,))
        return [q.scaled(mul(*sc)) if sc else q for q in out]

    def c_fft_irfft(self, t, a, kw, idx):
        n0 = a[1] if len(a) > 1 else kw.get("n", NONE)
        if len(idx) == 1 and n0 is not NONE:
            r = self.cconv(a[0], n0, "fft.rfft", idx)
            if r is not None:
                return r
        n = a[1] if len(a) > 1 else kw.get("n", NONE)
        ax = a[2] if len(a) > 2 else kw.get("axis", num(-1))
        s = self.shape(a[0])
        k = int(ax.args[0]) % len(s)
        d = s[k]
        if n is NONE:
            n = T.scale(sub(d, ONE), 2)
        half = fdiv_norm(mk("floordiv", n, num(2)))
        L = add(half, ONE)
        if L is not d:
            raise Unknown("irfft length")
        l, H = self.over(L)
        ii = tuple(idx[:k]) + (l,) + tuple(idx[k + 1:])
        w = mul(power(n, -1), expi(self.theta(n, idx[k], l)))
        base = [q.scaled(w, H=H, bound=(l,)) for q in self.E(a[0], ii)]
        cj = [Mono(kconj(q.coef), q.H, q.eq, q.x, (not q.cj) if q.x is not None else False, q.bound) for q in base]
        out = base + cj                       # 2*Re
        e0 = (neg(l),)
        out += [q.scaled(num(Fraction(-1, 2)), H=e0) for q in base + cj]
        if T.scale(half, 2) is n:
            em = (sub(l, half),)
            out += [q.scaled(num(Fraction(-1, 2)), H=em) for q in base + cj]
        return out

    def c_np_expand_dims(self, t, a, kw, idx):
        ax = a[1] if len(a) > 1 else kw.get("axis")
        k = int(ax.args[0]) % len(idx)
        return self.E(a[0], tuple(idx[:k]) + tuple(idx[k + 1:]))

    def c_nimble_dsp_fwht(self, t, a, kw, idx):
        l, H = self.over(self.shape(a[0])[0])
        c = symker("fwht", idx[0], l)
        return [q.scaled(c, H=H, bound=(l,)) for q in self.E(a[0], (l,) + tuple(idx[1:]))]

    def c_np_squeeze(self, t, a, kw, idx):
        raise Unknown("squeeze")

    # accumulation loops ---------------------------------------------------
    def loop_entry(self, h, idx):
        rec, path = self.loops[h]
        if rec.kind not in ("lax.fori_loop", "for"):
            raise Unknown("loop %s" % rec.kind)
        rg = rec.extra.get("range")
        if rg is None:
            raise Unknown("loop range")
        k0 = rec.extra["index"]
        if rg.op == "range" and len(rg.args) == 1:
            lo, hi = ZERO, rg.args[0]
        elif len(rg.args) == 2:
            lo, hi = rg.args
        else:
            raise Unknown("loop step")
        if rec.kind == "for" and lo is not ZERO:
            raise Unknown("loop start")
        init = dict(flat(rec.init))[path]
        body = dict(flat(rec.body))[path]
        if not isinstance(body, Term) or not isinstance(init, Term):
            raise Unknown("loop state")
        k, H = fresh_bound("k"), ()
        H = (sub(k, lo), sub(hi, add(k, ONE)))
        body = T.subst(body, {k0: k})
        others = {x for x in self.loops if self.loops[x][0] is rec}
        out = self.E(init, idx)

        def noself(t):
            if any(s in others for s in T.subterms(t)):
                raise Unknown("loop recurrence")
        if body.op in ("at_add", "at_set") and body.args[0] is h:
            _, i, v = body.args
            noself(i)
            noself(v)
            hh, eq, bound, vi = self.sel(i, self.shape(init), idx)
            if body.op == "at_set":
                if out:
                    raise Unknown("overwriting loop over non-zero buffer")
                if not self.disjoint(i, k, self.shape(init)):
                    raise Unknown("overwriting loop with overlap")
            vi = self.sub_idx(v, vi) if not T.is_scalar(v) else ()
            for q in self.E(v, vi):
                out.append(q.scaled(ONE, H=H + hh, eq=eq, bound=bound + (k,)))
            return out
        inc = sub(body, h)
        noself(inc)
        for q in self.E(inc, self.sub_idx(inc, idx)):
            out.append(q.scaled(ONE, H=H, bound=(k,)))
        return out

    def disjoint(self, i, k, s):
        if i is k:
            return True
        sh = S.shape_of(i)
        if i.op == "slice" and i.args[0] is not NONE and i.args[1] is not NONE and i.args[2] is NONE:
            w = sub(i.args[1], i.args[0])
            st = sub(T.subst(i.args[0], {k: add(k, ONE)}), i.args[0])
            return FACTS.nonneg(sub(st, w))
        if sh is not None and len(sh) == 1:
            q = fresh_bound()
            try:
                c = self.plain(self.E(i, (q,)))
            except Unknown:
                c = None
            if c is not None:
                if sub(T.subst(c, {q: add(q, ONE)}), c) is ONE:
                    st = sub(T.subst(c, {k: add(k, ONE)}), c)
                    return FACTS.nonneg(sub(st, sh[0]))
        return False


def symker(name, i, j):
    a, b = sorted((i, j), key=lambda t: t.key)
    c = mk("symker", name, (a, b))
    T.CTX.scalars.add(c)
    REALS.add(c)
    return c


def flat(v, path=()):
    from . import interp as IP
    if isinstance(v, IP.PyTuple):
        out = []
        for i, x in enumerate(v.items):
            out += flat(x, path + (i,))
        return out
    if isinstance(v, IP.NT):
        out = []
        for k, x in v.fields.items():
            out += flat(x, path + (k,))
        return out
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            out += flat(x, path + (k,))
        return out
    if isinstance(v, Term) and v.op == "tuple":
        out = []
        for i, x in enumerate(v.args[0]):
            out += flat(x, path + (i,))
        return out
    return [(path, v)]


# ------------------------------------------------------------ canonical form
def coefof(e, v):
    """coefficient of variable v in affine e, or None if v occurs non-affinely"""
    c = Fraction(0)
    for m, k in T._as_poly(e).items():
        if m is v:
            c = k
        elif T.depends(m, v):
            return None
    return c


def solve_eq(e, v):
    c = coefof(e, v)
    if c is None or abs(c) != 1:
        return None
    return T.scale(sub(e, T.scale(v, c)), Fraction(-1, 1) / c)


def ksub(t, mp):
    """substitution that re-canonicalises kernel atoms"""
    def f(x):
        if x in mp:
            return mp[x]
        if x.op == "symker":
            a, b = [T.rebuild(y, f) for y in x.args[1]]
            return symker(x.args[0], a, b)
        if x.op == "ent":
            r = ent(T.rebuild(x.args[0], f), tuple(T.rebuild(y, f) for y in x.args[1]))
            return r
        if x.op == "ker":
            r = mk("ker", x.args[0], tuple(T.rebuild(y, f) for y in x.args[1]))
            T.CTX.scalars.add(r)
            return r
        if x.op == "expi":
            return expi(T.rebuild(x.args[0], f))
        if x.op == "conj":
            return kconj(T.rebuild(x.args[0], f))
        if x.op == "sym":
            return x
        return None
    return T.rebuild(t, f)


class Form:
    """canonical sum of kernel monomials"""

    def __init__(self):
        self.d = {}
        self.cj = False

    def put(self, key, coef):
        self.d[key] = add(self.d.get(key, ZERO), coef)
        if self.d[key] is ZERO:
            del self.d[key]


bound_pairs = False     # opposite half-spaces over a summation variable become an equation


def in_index(h):
    """h>=0 holds because an index-set entry lies in its range"""
    for f in T.subterms(h):
        if f.op == "ent" and f.args[0] in INDEX:
            if h is f or h is sub(sub(INDEX[f.args[0]], ONE), f):
                return True
    return False


def canon(monos, pvars, dom, form=None, sign=1, swap=False):
    """monos of entry at free out-index; pvars: {x symbol: tuple of vars}
    naming the x index; dom: var -> size.  swap: conjugate (adjoint)."""
    form = form or Form()
    unit = {v: ZERO for v, n in dom.items() if n is ONE}
    dom = {v: n for v, n in dom.items() if n is not ONE}
    for m in monos:
        if m.x is None:
            raise NonLinear("constant part %s" % T.show(m.coef, 3))
        c = m.coef
        cj = m.cj
        if swap:
            c = kconj(c)
        eqs = list(m.eq)
        pv = pvars[m.x[0]]
        for p, e in zip(pv, m.x[1:]):
            eqs.append(sub(p, e))
        H = list(m.H)
        hs = set(H)
        if bound_pairs and any(neg(h) in hs for h in H):
            eqs += [h for h in hs if neg(h) in hs and h.key < neg(h).key and any(T.depends(h, b) for b in m.bound)]
            H = [h for h in H if not (neg(h) in hs and any(T.depends(h, b) for b in m.bound))]
        bound = set(m.bound)
        if unit:
            c = ksub(c, unit)
            eqs = [ksub(e, unit) for e in eqs]
            H = [ksub(h, unit) for h in H]
        eqs = [e for e in eqs if e is not ZERO]
        # eliminate bound variables
        eqs, c, H, bound = eliminate(eqs, c, H, bound, sorted(bound, key=lambda v: v.key), dom, True)
        free = sorted([v for v in dom], key=lambda v: v.key)
        pref = [v for v in free if v in pv] if not swap else [v for v in free if v not in pv]
        pref += [v for v in free if v not in pref]
        eqs, c, H, bound, kept = eliminate_free(eqs, c, H, bound, pref, dom)
        if INDEX:
            H = [h for h in H if not in_index(h)]
        addmono(form, c, H, eqs, kept, bound, dom, sign, cj)
    return form


def eliminate(eqs, c, H, bound, order, dom, isbound):
    changed = True
    while changed:
        changed = False
        for e in list(eqs):
            for v in order:
                if v not in bound:
                    continue
                s = solve_eq(e, v)
                if s is None or T.depends(s, v):
                    continue
                eqs.remove(e)
                mp = {v: s}
                eqs = [ksub(x, mp) for x in eqs]
                c = ksub(c, mp)
                H = [ksub(x, mp) for x in H]
                bound = bound - {v}
                changed = True
                break
            if changed:
                break
    return [x for x in eqs if x is not ZERO], c, H, bound


def eliminate_free(eqs, c, H, bound, pref, dom):
    kept = []
    changed = True
    while changed:
        changed = False
        for v in pref:
            for e in list(eqs):
                s = solve_eq(e, v)
                if s is None or T.depends(s, v):
                    continue
                eqs.remove(e)
                mp = {v: s}
                eqs = [ksub(x, mp) for x in eqs]
                kept = [(w, ksub(x, mp)) for w, x in kept] + [(v, s)]
                c = ksub(c, mp)
                H = [ksub(x, mp) for x in H] + [s, sub(dom[v], add(s, ONE))]
                changed = True
                break
            if changed:
                break
    return [x for x in eqs if x is not ZERO], c, H, bound, kept


def bounds(e, dom, lower=True):
    """symbolic lower/upper bound of affine e over the free-variable box"""
    r = e
    for v, n in dom.items():
        k = coefof(r, v)
        if k is None:
            return None
        if k == 0:
            continue
        at = ZERO if (k > 0) == lower else sub(n, ONE)
        r = T.subst(r, {v: at})
    return r


def addmono(form, c, H, eqs, kept, bound, dom, sign, cj):
    # guard normalisation
    hs = []
    for h in H:
        h = fdiv_norm(h)
        h = intnorm(h)
        if T.is_num(h):
            if h.args[0] < 0:
                return
            continue
        lo = bounds(h, dom, True)
        if lo is not None and FACTS.nonneg(lo):
            continue
        hi = bounds(h, dom, False)
        if hi is not None and FACTS.nonneg(sub(neg(hi), ONE)):
            return
        hs.append(h)
    c = merge_exp(fdiv_norm(c))
    ex = [([], Fraction(sign))]
    # group by direction; orientation
    vars_ = sorted(set(dom) | set(bound), key=lambda v: v.key)
    for h in hs:
        ori = None
        for v in vars_:
            k = coefof(h, v)
            if k is not None and k != 0:
                ori = k > 0
                break
        if ori is None:
            ori = True
            # parameter-only guard
        if ori:
            ex = [(l + [h], s) for l, s in ex]
        else:
            g = sub(neg(h), ONE)
            ex = [(l, s) for l, s in ex] + [(l + [g], -s) for l, s in ex]
    work = [(combine(l, dom), s) for l, s in ex]
    ex = []
    while work:
        l, s = work.pop()
        r = pairrule(l, dom)
        if r is None:
            ex.append((l, s))
        else:
            work += [(combine(x, dom), s * k) for x, k in r]
    work = [(l, s, c, kept, eqs, dom) for l, s in ex]
    while work:
        l, s, cw, kw, ew, dw = work.pop()
        l = combine(l, dw)
        r = pin(l, dw)
        if r is None:
            r2 = pairrule(l, dw)
            if r2 is not None:
                work += [(x, s * k, cw, kw, ew, dw) for x, k in r2]
                continue
            cc = T.scale(cw, s)
            cc = merge_exp(cc)
            for mon, k in T._as_poly(cc).items():
                form.put(canon_bound(kw, ew, l, mon, bound, cj), num(k))
            continue
        kind, h, v, val = r
        rest = [x for x in l if x is not h]
        mp = {v: val}
        d2 = {a: b for a, b in dw.items() if a is not v}
        sub_l = []
        dead = False
        for x in rest:
            y = intnorm(fdiv_norm(ksub(x, mp)))
            lo, hi = bounds(y, d2, True), bounds(y, d2, False)
            if lo is not None and FACTS.nonneg(lo):
                continue
            if hi is not None and FACTS.nonneg(negat(hi)):
                dead = True
                break
            sub_l.append(y)
        pinned = None if dead else (sub_l, s, fdiv_norm(ksub(cw, mp)), [(a, ksub(b, mp)) for a, b in kw] + [(v, val)],
                                    [ksub(e, mp) for e in ew], d2)
        if kind == "is":
            if pinned:
                work.append(pinned)
        else:
            work.append((rest, s, cw, kw, ew, dw))
            if pinned:
                work.append((pinned[0], -s) + pinned[2:])


def pin(l, dom):
    """a half space that holds (fails) at exactly one value of a free variable"""
    for h in l:
        vs = [v for v in dom if coefof(h, v) not in (0, None)]
        if len(vs) != 1 or any(coefof(h, v) is None for v in dom):
            continue
        v = vs[0]
        if abs(coefof(h, v)) != 1:
            continue
        if any(x in INTS and x not in FACTS.lb and x is not v for x in T.syms(h)):
            continue
        hi = bounds(h, dom, False)
        if hi is ZERO:
            return ("is", h, v, solve_eq(h, v))
        n = negat(h)
        hi = bounds(n, dom, False)
        if hi is ZERO:
            return ("not", h, v, solve_eq(n, v))
    return None


def negat(h):
    return sub(neg(h), ONE)


def infeasible(a, b, dom):
    """a >= 0 and b >= 0 cannot hold together on the domain box"""
    u = bounds(add(a, b), dom, False)
    return u is not None and not any(x in INTS and x not in FACTS.lb for x in T.syms(u)) and FACTS.nonneg(negat(u))


def pairrule(l, dom):
    """rewrite a product of half-space indicators using one pairwise relation"""
    for i in range(len(l)):
        for j in range(len(l)):
            if i == j:
                continue
            a, b = l[i], l[j]
            if infeasible(a, negat(b), dom):          # a implies b
                return [(l[:j] + l[j + 1:], 1)]
            if i < j:
                if infeasible(a, b, dom):
                    return []
                if infeasible(negat(a), negat(b), dom):   # a or b always
                    rest = [x for k, x in enumerate(l) if k not in (i, j)]
                    return [(rest + [a], 1), (rest + [b], 1), (rest, -1)]
    return None


def intnorm(h):
    """scale an integer inequality to primitive coefficients"""
    p = T._as_poly(h)
    from math import gcd
    den = 1
    for k in p.values():
        den = den * k.denominator // gcd(den, k.denominator)
    if den != 1:
        h = T.scale(h, den)
        p = T._as_poly(h)
    g = 0
    for m, k in p.items():
        if m is not ONE:
            g = gcd(g, abs(int(k)))
    if g > 1:
        q = {m: (k / g if m is not ONE else Fraction(int(k) // g)) for m, k in p.items()}
        return T._from_poly(q)
    return h


def combine(l, dom):
    """merge half spaces of the same direction: keep the smaller threshold"""
    out = []
    for h in l:
        done = False
        for i, g in enumerate(out):
            d = sub(h, g)
            if any(coefof(d, v) != 0 for v in dom) or any(f in INTS for f in T.syms(d)):
                continue
            if FACTS.nonneg(d):        # h >= g : g implies h
                done = True
                break
            if FACTS.nonneg(neg(d)):
                out[i] = h
                done = True
                break
        if not done:
            out.append(h)
    return sorted(set(out), key=lambda t: t.key)


def canon_bound(kept, eqs, hs, mon, bound, cj):
    used = [v for v in bound if T.depends(mon, v) or any(T.depends(x, v) for x in hs) or any(T.depends(x, v) for x in eqs)]
    idle = tuple(sorted("free-sum" for v in bound if v not in used))
    best = None
    us = sorted(used, key=lambda v: v.key)
    names = [index_var("β%d" % i) for i in range(len(us))]
    perms = itertools.permutations(range(len(us))) if len(us) <= 5 else [range(len(us))]
    for pm in perms:
        mp = {v: names[k] for v, k in zip(us, pm)}
        m2 = merge_exp(ksub(mon, mp)) if mp else mon
        h2 = tuple(sorted((ksub(x, mp) if mp else x for x in hs), key=lambda t: t.key))
        e2 = tuple(sorted((T.content(ksub(x, mp) if mp else x)[1] for x in eqs), key=lambda t: t.key))
        k2 = tuple(sorted(((v, ksub(x, mp) if mp else x) for v, x in kept), key=lambda q: q[0].key))
        key = (k2, e2, h2, m2, len(us), idle, cj)
        ks = T._keyof((tuple(x for q in k2 for x in q), e2, h2, m2))
        if best is None or ks < best[0]:
            best = (ks, key)
    return best[1]


def show_form(d, limit=4):
    out = []
    for (k2, e2, h2, m2, nb, idle, cj), c in list(d.items())[:limit]:
        s = "%s·%s" % (T.show(c), T.show(m2))
        for v, x in k2:
            s += " at %s=%s" % (T.show(v), T.show(x))
        for e in e2:
            s += " where %s=0" % T.show(e)
        for h in h2:
            s += " if %s>=0" % T.show(h)
        if cj:
            s += " (conjugated argument)"
        out.append(s)
    return "; ".join(out)
