"""Separating points for kernel summaries.

Two canonical kernels that differ syntactically may still be the same map.
Before a difference is reported as a violation, the two summaries are compared
at small sizes: the value numbers of both kernels (not the program) are
evaluated at every index pair, with independent generic values for the free
data symbols.  A differing entry is the witness that goes into the report."""
import cmath
import hashlib
import itertools
import math
import time
from fractions import Fraction
from . import term as T
from . import kernel as K
from .term import Term, ONE, ZERO


class Undefined(Exception):
    pass


def generic(key, real):
    h = hashlib.sha256(key.encode()).digest()
    a = int.from_bytes(h[:6], "big") / 2 ** 47 - 1 + 0.123
    b = int.from_bytes(h[6:12], "big") / 2 ** 47 - 1 + 0.077
    return complex(a, 0.0 if real else b)


class Point:
    """assignment of integers to sizes/indices; generic values for the rest"""

    def __init__(self, env, salt=""):
        self.env = dict(env)
        self.salt = salt
        self.atoms = set()
        self.memo = {}

    def int_(self, t):
        v = self.val(t)
        if abs(v.imag) > 1e-9 or abs(v.real - round(v.real)) > 1e-9:
            raise Undefined("non-integer index")
        return int(round(v.real))

    def key(self, t):
        """ground key of an atom with evaluated indices"""
        if isinstance(t, Term):
            if t in self.env or t.op == "num" or (t.op in ("sum", "prod", "floordiv") and T.is_scalar(t)) or \
                    (t.op == "ent" and t.args[0] in INDEX):
                try:
                    v = self.val(t)
                    return "%.7g" % v.real + ("" if abs(v.imag) < 1e-9 else ",%.7g" % v.imag)
                except Undefined:
                    pass
            if t.op == "sym":
                return "s:" + str(t.args[0])
            if t.op in ("sum", "prod"):
                return t.op + self.key(t.args[0])
            return t.op + "(" + ",".join(self.key(a) for a in t.args) + ")"
        if isinstance(t, tuple):
            return "[" + ",".join(self.key(a) for a in t) + "]"
        if isinstance(t, Fraction):
            return str(t)
        return repr(t)

    def val(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._val(t)
            self.memo[t] = r
        return r

    def _val(self, t):
        if t in self.env:
            return complex(self.env[t])
        o = t.op
        if o == "num":
            return complex(float(t.args[0]))
        if o == "sym" and t in T.CTX.opaque and not T.CTX.free_heads:
            raise Undefined("loop state %s" % t.args[0])
        if t is T.sym("pi"):
            return complex(math.pi)
        if t is T.IMAG:
            return 1j
        if o == "sum":
            return sum((self.val(m) * float(c) for m, c in t.args[0]), 0j)
        if o == "prod":
            r = 1 + 0j
            for f, e in t.args[0]:
                b = self.val(f)
                if b == 0 and e < 0:
                    raise Undefined("division by zero")
                r *= b ** (int(e) if e.denominator == 1 else float(e))
            return r
        if o == "conj":
            return self.val(t.args[0]).conjugate()
        if o == "expi":
            return cmath.exp(1j * self.val(t.args[0]).real)
        if o == "exp":
            return cmath.exp(self.val(t.args[0]))
        if o in ("cos", "sin"):
            return getattr(cmath, o)(self.val(t.args[0]))
        if o == "abs":
            return complex(abs(self.val(t.args[0])))
        if o == "floordiv":
            a, b = self.val(t.args[0]).real, self.val(t.args[1]).real
            if b == 0:
                raise Undefined("division by zero")
            return complex(math.floor(a / b + 1e-12))
        if o == "mod":
            a, b = self.int_(t.args[0]), self.int_(t.args[1])
            if b == 0:
                raise Undefined("division by zero")
            return complex(a % b)
        if o == "sign":
            a = self.val(t.args[0]).real
            return complex((a > 0) - (a < 0))
        if o in ("max", "min") and isinstance(t.args[0], tuple):
            v = [self.val(x).real for x in t.args[0]]
            return complex(max(v) if o == "max" else min(v))
        if o == "call" and t.args[0] in ("math.ceil", "math.floor", "np.ceil", "np.floor") and len(t.args[1]) == 1:
            v = self.val(t.args[1][0]).real
            return complex(math.ceil(v - 1e-9) if "ceil" in t.args[0] else math.floor(v + 1e-9))
        real = t in K.REALS or t in T.CTX.nonneg or (o == "ent" and (t.args[0] in K.REALS or T.is_real(t.args[0]))) or o == "n2" or (o == "ker" and t.args[0] in K.REALS)
        if o in ("ent",) and t.args[0].op != "sym":
            real = True        # derived data: conjugation is not judged
        if o == "ent" and t.args[0].op == "sym" and t.args[0] in INDEX:
            # an index set: distinct positions below the bound
            n = self.int_(INDEX[t.args[0]])
            i = self.int_(t.args[1][0])
            if i >= n:
                raise Undefined("index set larger than the range")
            return complex((i * 1 + 1) % n) if n else 0j
        if o == "ent":
            self.atoms.add(t.args[0])
        elif o == "ker":
            self.atoms.add(t.args[0])
        elif o != "sym":
            self.atoms.add(t)
        return generic(self.salt + self.key(t), real)

    def truth(self, c):
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c.op == "cmp":
            v = self.val(c.args[1])
            k = c.args[0]
            if k == "eq":
                return abs(v) < 1e-9
            if k == "lt":
                return v.real < -1e-12
            if k == "le":
                return v.real <= 1e-12
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op == "and":
            return all(self.truth(x) for x in c.args[0])
        if c.op == "or":
            return any(self.truth(x) for x in c.args[0])
        raise Undefined("condition")


INDEX = K.INDEX


def entries(monos, env, salt="", atoms=None):
    """{(x symbol, ground index, conj): value} for one output index"""
    out = {}
    for m in monos:
        for e in solve(m, env, salt):
            p = Point(e, salt)
            ok = True
            for h in m.H:
                if p.val(h).real < -1e-9:
                    ok = False
                    break
            if ok:
                for q in m.eq:
                    if abs(p.val(q)) > 1e-9:
                        ok = False
                        break
            if not ok:
                continue
            if m.x is None:
                k = (None,)
            else:
                k = (m.x[0],) + tuple(p.int_(i) for i in m.x[1:]) + (m.cj,)
            out[k] = out.get(k, 0j) + p.val(m.coef)
            if atoms is not None:
                atoms |= p.atoms
    return out


def solve(m, env, salt):
    """enumerate the bound variables of one monomial"""
    todo = list(m.bound)
    return _solve(m, env, todo, salt)


def lin(e, v, p):
    """(coefficient, rest) of affine e in v at point p; None when other unknowns occur"""
    k = K.coefof(e, v)
    if k is None:
        # coefficient may itself be a ground product
        c = ZERO
        rest = ZERO
        for mo, q in T._as_poly(e).items():
            d = T._as_prod(mo)
            if v in d:
                if d[v] != 1:
                    return None
                c = T.add(c, T.scale(T._from_prod({a: b for a, b in d.items() if a is not v})[1], q))
            elif T.depends(mo, v):
                return None
            else:
                rest = T.add(rest, T.scale(mo, q))
    else:
        if k == 0:
            return None
        c = T.num(k)
        rest = T.sub(e, T.scale(v, k))
    return c, rest


def known(t, env, todo):
    return not any(T.depends(t, v) for v in todo)


def _solve(m, env, todo, salt):
    if not todo:
        yield env
        return
    # a variable fixed by an equation
    for v in todo:
        others = [w for w in todo if w is not v]
        for q in m.eq:
            r = lin(q, v, None)
            if r is None or not known(r[0], env, others) or not known(r[1], env, others):
                continue
            p = Point(env, salt)
            c, rest = p.val(r[0]), p.val(r[1])
            if abs(c) < 1e-12:
                continue
            val = -rest / c
            if abs(val.imag) > 1e-9 or abs(val.real - round(val.real)) > 1e-9:
                return
            e2 = dict(env)
            e2[v] = int(round(val.real))
            yield from _solve(m, e2, others, salt)
            return
    for v in todo:
        others = [w for w in todo if w is not v]
        lo = hi = None
        for h in m.H:
            r = lin(h, v, None)
            if r is None or not known(r[0], env, others) or not known(r[1], env, others):
                continue
            p = Point(env, salt)
            c, rest = p.val(r[0]).real, p.val(r[1]).real
            if abs(c) < 1e-12:
                continue
            b = -rest / c
            if c > 0:
                b = math.ceil(b - 1e-9)
                lo = b if lo is None else max(lo, b)
            else:
                b = math.floor(b + 1e-9)
                hi = b if hi is None else min(hi, b)
        if lo is None or hi is None:
            continue
        if hi - lo > 200:
            raise Undefined("range too large")
        for i in range(lo, hi + 1):
            e2 = dict(env)
            e2[v] = i
            yield from _solve(m, e2, others, salt)
        return
    raise Undefined("unbounded summation")


def sizes(syms, conds, limit=6, span=5):
    """small assignments of the size symbols that satisfy every condition"""
    syms = sorted(syms, key=lambda s: s.key)
    out = []
    if len(syms) > 7:
        span = 3
    rngs = []
    for s in syms:
        lb = int(K.FACTS.lb.get(s, 0))
        rngs.append(list(range(lb, lb + span)))
    seen = 0
    cand = []
    for vals in itertools.product(*rngs):
        seen += 1
        if seen > 40000:
            break
        env = dict(zip(syms, vals))
        p = Point(env)
        try:
            if all(p.val(f).real >= -1e-9 for f in K.FACTS.extra) and all(p.truth(c) for c in conds):
                cand.append(env)
        except Undefined:
            continue
    # prefer assorted values: distinct sizes, moderate magnitude
    cand.sort(key=lambda e: (-len(set(e.values())), abs(sum(e.values()) - 3 * len(e))))
    out = cand[:limit]
    if cand and len(cand) > limit:
        step = max(1, len(cand) // limit)
        out = cand[:max(2, limit // 2)] + cand[::step][:limit - max(2, limit // 2)]
    return out


def timed(seq, seconds):
    """iterate until the time budget is spent (at least four items)"""
    t = time.time()
    for k, v in enumerate(seq):
        if k >= 4 and time.time() - t > seconds:
            return
        yield v


def box(shape, p):
    return itertools.product(*[range(p.int_(d)) for d in shape])


def adjoint_gap(E1, ovars, oshape, x, E2, pvars, pshape, y, env, real=False, unconj=False):
    """first entry where the kernel of A and the conjugate-transpose of the
    kernel of A^H differ at a ground point; None when they agree"""
    p = Point(env)
    atoms1, atoms2 = set(), set()
    M, N = {}, {}
    for oi in box(oshape, p):
        e = dict(env)
        e.update(zip(ovars, oi))
        for k, v in entries(E1, e, "", atoms1).items():
            if k[0] is None:
                if abs(v) > 1e-7:
                    return ("constant", oi, v), atoms1 ^ atoms2
                continue
            M[(oi,) + k[1:]] = M.get((oi,) + k[1:], 0j) + v
    for pi in box(pshape, p):
        e = dict(env)
        e.update(zip(pvars, pi))
        for k, v in entries(E2, e, "", atoms2).items():
            if k[0] is None:
                if abs(v) > 1e-7:
                    return ("constant", pi, v), atoms1 ^ atoms2
                continue
            kk = (k[1:-1], ) + pi + (k[-1],)
            N[kk] = N.get(kk, 0j) + v
    if real:
        M2, N2 = {}, {}
        for k, v in M.items():
            M2[k[:-1]] = M2.get(k[:-1], 0j) + v
        for k, v in N.items():
            N2[k[:-1]] = N2.get(k[:-1], 0j) + v
        for k in sorted(set(M2) | set(N2)):
            a, b = M2.get(k, 0j), N2.get(k, 0j).conjugate()
            if real == "re":       # inputs and outputs real
                a, b = a.real, b.real
            if abs(a - b) > 1e-7 * (1 + abs(a)):
                return (k, a, b), atoms1 ^ atoms2
        return None, ()
    for k in sorted(set(M) | set(N), key=repr):
        a = M.get(k, 0j)
        b = N.get(k, 0j)
        # <Ax,y> = <x,A^H y>: holomorphic part conjugates, antilinear part does not
        b = b.conjugate() if (not k[-1]) != unconj else b
        if abs(a - b) > 1e-7 * (1 + abs(a)):
            return (k, a, b), atoms1 ^ atoms2
    return None, ()


def map_gap(E1, E2, ovars, oshape, env, real=False):
    """first entry where two kernels with the same output index differ"""
    p = Point(env)
    a1, a2 = set(), set()
    for oi in box(oshape, p):
        e = dict(env)
        e.update(zip(ovars, oi))
        f = entries(E1, e, "", a1)
        g = entries(E2, e, "", a2)
        if real:
            def fold(d):
                r = {}
                for k, v in d.items():
                    kk = k if k[0] is None else k[:-1]
                    r[kk] = r.get(kk, 0j) + v
                return r
            f, g = fold(f), fold(g)
        for k in sorted(set(f) | set(g), key=repr):
            a, b = f.get(k, 0j), g.get(k, 0j)
            if abs(a - b) > 1e-7 * (1 + abs(a)):
                return (oi, k, a, b), a1 ^ a2
    return None, ()
