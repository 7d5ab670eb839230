"""Inductive facts about loop recurrences.

A loop record holds the value numbers of the initial state, of the next state
over symbolic heads and of the guard.  Candidate equalities  head = expression
(residual, image, gradient, squared norm, selected columns) are generated from
the initial state and kept when they are preserved by the body (greatest
inductive subset).  Claims about the result are then decided by substitution.
A claim that does not follow is reported only together with a short history of
the recurrence (value graphs at one input point) on which it fails."""
import numpy as np

from . import eqv
from . import interp as IP
from . import point
from . import shape as S
from . import term as T
from .term import ONE, ZERO, TRUE, NONE, mk, num


def bottomup(t, g):
    memo = {}

    def go(x):
        if not isinstance(x, T.Term):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            r = T.reconstruct(x, go)
            for _ in range(6):
                y = g(r)
                if y is None or y is r:
                    break
                r = y
            memo[x] = r
        return r
    return go(t)


def one(i):
    return mk("array", mk("tuple", (i,)))


def first(v):
    """the only entry of a one-entry vector"""
    def f(m):
        if m.op == "idx" and m.args[1].op == "array" and m.args[1].args[0].op == "tuple" and len(m.args[1].args[0].args[0]) == 1:
            return mk("idx", m.args[0], m.args[1].args[0].args[0][0])
        if m.op == "array" and m.args[0].op == "tuple" and len(m.args[0].args[0]) == 1:
            return m.args[0].args[0][0]
        return mk("idx", m, ZERO)
    r = T._pull(v, f)
    for x in T.subterms(r):
        if x.op == "idx" and S.shape_of(x) in ((), None) and T.rank(x.args[0]) == 1:
            T.CTX.scalars.add(x)
    return r


FULL = mk("slice", NONE, NONE, NONE)


def canon(t, A):
    """selected columns of the model A in one form"""
    def is_zeros(z):
        return z.op == "zeros" or z is ZERO

    def cols(i):
        return mk("cols", A, i)

    def image(m):
        """A m for a recognised m"""
        if m.op == "unit":
            return mk("col", A, m.args[1])
        if m.op == "scatter":
            return g(mk("mm", cols(m.args[1]), m.args[2])) or T.mm(cols(m.args[1]), m.args[2])
        if m.op == "zeros":
            return ZERO
        if m.op == "at_set" and is_zeros(m.args[0]) and m.args[2] is ONE and m.args[1].op == "tuple" and len(m.args[1].args[0]) == 2 \
                and m.args[1].args[0][1].op == "arange":
            return cols(m.args[1].args[0][0])
        return None

    def g(x):
        o, a = x.op, x.args
        if o == "app" and is_zeros(a[2]):
            return ZERO
        if o in ("ravel", "sign", "abs", "conj") and is_zeros(a[0]):
            return ZERO
        if o == "mm" and any(is_zeros(z) for z in a):
            return ZERO
        if o == "app" and a[0] is A and a[1] == "times":
            return image(a[2])
        if o == "mm" and a[-2] is A:
            r = image(a[-1])
            if r is not None:
                return T.mm(*(a[:-2] + (r,))) if len(a) > 2 else r
        if o == "mm" and a[-2].op == "cols" and a[-2].args[1].op == "array" and a[-2].args[1].args[0].op == "tuple" \
                and len(a[-2].args[1].args[0].args[0]) == 1 and len(a) == 2:
            return T.mul(mk("col", A, a[-2].args[1].args[0].args[0][0]), first(a[-1]))
        if o == "idx" and a[1].op == "tuple" and len(a[1].args[0]) == 2 and a[1].args[0][0] is FULL:
            i = a[1].args[0][1]
            if a[0] is A or a[0].op == "cols":
                si = S.shape_of(i)
                if si is not None and i is not NONE:
                    j = i if a[0] is A else mk("idx", a[0].args[1], i)
                    return cols(j) if len(si) == 1 else mk("col", A, j) if si == () else None
            if i is NONE and a[0].op == "col":
                return cols(one(a[0].args[1]))
        if o == "idx" and a[0].op == "T" and a[0].args[0] is A and S.shape_of(a[1]) == ():
            return mk("col", A, a[1])
        if o == "at_add" and T.rank(a[0]) == 1 and S.shape_of(a[1]) == ():
            return T.add(a[0], T.mul(a[2], mk("unit", S.shape_of(a[0])[0], a[1])))
        if o == "at_set" and is_zeros(a[0]) and S.shape_of(a[0]) is not None and len(S.shape_of(a[0])) == 1 and a[1].op not in ("tuple", "slice"):
            si = S.shape_of(a[1])
            if si == ():
                return T.mul(a[2], mk("unit", S.shape_of(a[0])[0], a[1]))
            if si is not None and len(si) == 1:
                return mk("scatter", S.shape_of(a[0])[0], a[1], a[2])
        if o == "call" and a[0] == "np.expand_dims" and a[1][0].op == "col":
            k = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("axis")
            if k is ONE or k is num(-1):
                return cols(one(a[1][0].args[1]))
        if o == "hstack" and a[0].op == "tuple":
            it = a[0].args[0]
            if all(z.op == "cols" for z in it):
                return cols(cat([z.args[1] for z in it]))
            if all(S.shape_of(z) is not None and len(S.shape_of(z)) <= 1 for z in it):
                return cat(it)
        if o == "concat" and len(a) == 1 and a[0].op == "tuple":
            r = cat(a[0].args[0])
            return r if r is not x else None
        if o == "concat" and len(a) == 2 and a[0].op == "tuple" and all(z.op == "cols" for z in a[0].args[0]) and a[1] in (ONE, num(-1)):
            return cols(cat([z.args[1] for z in a[0].args[0]]))
        return None

    def cat(it):
        out = []
        for z in it:
            if S.shape_of(z) == ():
                z = one(z)
            if z.op == "concat" and len(z.args) == 1 and z.args[0].op == "tuple":
                out.extend(z.args[0].args[0])
            else:
                out.append(z)
        return mk("concat", mk("tuple", tuple(out)))
    return bottomup(t, g)


class Facts:
    """greatest inductive subset of the candidate equalities of all loops"""

    def __init__(self, an, A, wanted=()):
        self.an, self.A = an, A
        self.I = an.I
        self.map = {}           # head -> expression over heads
        self.log = []
        self.wanted = list(wanted)
        for L in reversed(an.loops):
            try:
                self.loop(L)
            except RecursionError:
                raise
            except Exception as e:  # noqa
                self.log.append("loop %s: %s" % (L, e))

    def flat(self, v):
        return [x if isinstance(x, T.Term) else self.I.to_term(x) for x in IP._flat(v)]

    def apply(self, t, m=None):
        m = {**self.map, **m} if m else self.map
        if m:
            for _ in range(5):
                u = T.subst(t, m)
                if u is t:
                    break
                t = u
        t = canon(t, self.A)
        t = T.subst(t, m) if m else t
        return eqv.expand(canon(t, self.A)) if T.CTX.real else canon(t, self.A)

    def img(self, x):
        return T.app(self.A, "times", x) if self.an.case.model in ("op", "sqop") else T.mm(self.A, x)

    def adj(self, x):
        return T.app(self.A, "trans", x) if self.an.case.model in ("op", "sqop") else T.mm(T.transpose(self.A), x)

    def others(self):
        return [W for W in sorted({e.data[0] for e in self.an.events if e.kind == "app"}, key=lambda w: w.key)
                if W is not self.A and S.shape_of(W) and len(S.shape_of(W)) == 2]

    def loop(self, L):
        heads, init, body = self.flat(L.head), self.flat(L.init), self.flat(L.body)
        if not (len(heads) == len(init) == len(body)):
            return
        A = self.A
        sA = S.shape_of(A)
        ini = dict(zip(heads, init))
        hs = [h for h in heads if h.op == "sym"]
        vec = [h for h in hs if T.rank(h) == 1]
        mats = [h for h in hs if T.rank(h) == 2]
        at0 = lambda t: T.subst(t, {h: ini[h] for h in hs})
        cand = {}

        def add(h, e):
            cand.setdefault(h, []).append(e)
        for M in mats:
            for J in vec:
                add(M, mk("cols", A, J))
        models = []
        if sA:
            for v in vec:
                sv = S.shape_of(v)
                if sv == (sA[1],):
                    models.append(self.img(v))
            for M in mats:
                sv = S.shape_of(M)
                if sv and sv != sA:
                    models.append(self.img(mk("ravel", M)))
            for W in self.others():
                sW = S.shape_of(W)
                for v in vec:
                    if S.shape_of(v) == (sW[1],) and sW[0] == sA[1]:
                        models.append(self.img(T.app(W, "times", v)))
            for I2 in vec:
                for v in hs:
                    if I2 is not v and v not in mats and not T.is_scalar(v) and (S.shape_of(v) == S.shape_of(I2) or "#" in repr(S.shape_of(I2)) or S.shape_of(v) is None):
                        if I2.args[0].split(".")[-1].startswith(("I", "idx", "supp", "ind")) or True:
                            models.append(T.mm(mk("cols", A, I2), v))
            for r in vec:
                if S.shape_of(r) == (sA[0],):
                    for mdl in models:
                        for sg in (-1, 1):
                            C = self.apply(T.sub(at0(r), T.scale(at0(mdl), sg)))
                            if C.size > 60 or any(x.op in ("cols", "col", "lstsq") for x in T.subterms(C)):
                                continue
                            add(r, T.add(C, T.scale(mdl, sg)))
                            if self.an.case.kw.get("sign"):
                                C = self.apply(T.sub(at0(r), T.scale(mk("sign", at0(mdl)), sg)))
                                add(r, T.add(C, T.scale(mk("sign", mdl), sg)))
                if S.shape_of(r) == (sA[1],):
                    for q in vec:
                        if S.shape_of(q) == (sA[0],) and q is not r:
                            C = self.apply(T.add(at0(r), self.adj(at0(q))))
                            if C is ZERO:
                                add(r, T.neg(self.adj(q)))
        for s in hs:
            if T.is_scalar(s):
                for v in vec:
                    for e in (T.n2(v), T.scale(T.n2(v), T.Fraction(1, 2)), T.sqrt(T.n2(v))):
                        add(s, e)
        bod = dict(zip(heads, body))
        # base cases
        for h in list(cand):
            keep = []
            for e in cand[h]:
                if T.sub(self.apply(at0(h)), self.apply(at0(e))) is ZERO:
                    keep.append(e)
            cand[h] = keep
        cand = {h: c for h, c in cand.items() if c}
        cur = {h: 0 for h in cand}
        for _ in range(60):
            if not cur:
                break
            m = {h: cand[h][k] for h, k in cur.items()}
            bad = None
            for h in m:
                lhs = self.apply(bod[h], m)
                rhs = self.apply(T.subst(m[h], {x: bod[x] for x in hs}), m)
                if T.sub(lhs, rhs) is not ZERO and T.equal(lhs, rhs, limit=5) is not True:
                    bad = h
                    break
            if bad is None:
                break
            cur[bad] += 1
            if cur[bad] >= len(cand[bad]):
                del cur[bad]
        else:
            return
        for h, k in cur.items():
            self.map[h] = cand[h][k]
            self.log.append("%s: %s = %s" % (L, h.args[0], T.show(cand[h][k], 5)))

    def zero(self, e):
        """is e identically zero under the inductive facts"""
        r = self.apply(e)
        if r is ZERO:
            return True
        ok = True
        for asg, (x,) in T.cases(r, limit=7):
            if x is not ZERO and self.apply(x) is not ZERO:
                ok = False
                break
        if ok:
            return True
        try:
            return eqv.elementwise_equal(r, ZERO) is True
        except eqv.TooMany:
            return False


# ---------------------------------------------------------------- histories
class TooLong(point.Undefined):
    def __init__(self, label, steps):
        super().__init__("history too long")
        self.label, self.steps = label, steps


class History(point.Point):
    """one input point; loop heads take the values of a bounded history"""
    BOUND = 12
    over = None         # loop label -> replacement of initial fields, next fields and guard

    def __init__(self, an, **kw):
        self.an = an
        self.heads = {}
        for L in an.loops:
            fl = [x if isinstance(x, T.Term) else an.I.to_term(x) for x in IP._flat(L.head)]
            for h in fl:
                if h.op == "sym":
                    self.heads[h] = (L, fl)
            if "index" in L.extra:
                self.heads[L.extra["index"]] = (L, fl)
        self.steps = {}
        super().__init__(**kw)

    def opmat(self, op, m, n):
        A = super().opmat(op, m, n)
        return A / np.sqrt(np.sum(np.abs(A) ** 2, axis=0))

    def sub(self, env):
        return self.child(env)

    def child(self, env):
        c = History.__new__(History)
        c.an, c.heads, c.steps, c.BOUND = self.an, self.heads, self.steps, self.BOUND
        point.Point.__init__(c, env=env, salt=self.salt, sizes=self.sizes, gen=self.gen, cplx=self.cplx)
        c.rising, c.seen = self.rising, self.seen
        c.over = self.over
        return c

    def default(self, t):
        if t in self.heads:
            self.run(*self.heads[t])
            return self.env[t]
        if t.op == "sym" and "#" in t.args[0]:
            # a dimension of a loop state
            n, _, k = t.args[0].rpartition("#")
            h = T.sym(n)
            if k.isdigit() and (h in self.heads or h in self.env):
                return np.shape(self.val(h))[int(k)]
        return super().default(t)

    def run(self, L, heads):
        I = self.an.I
        tm = lambda v: [x if isinstance(x, T.Term) else I.to_term(x) for x in IP._flat(v)]
        init, body = tm(L.init), tm(L.body)
        idx = L.extra.get("index")
        guard = L.cond
        ov = self.over.get(L.label) if self.over else None
        if ov:
            init = [ov["init"].get(h, i) for h, i in zip(heads, init)]
            body = [ov["step"].get(h, b) for h, b in zip(heads, body)]
            guard = ov["guard"] if ov["guard"] is not None else guard
        if L.body is None or len(init) != len(heads) or len(body) != len(heads) or L.cond is None:
            raise point.Undefined("loop without a recurrence")
        tree = getattr(L, "tree", None)
        if tree is not None and (IP._has_leaf(tree, IP.BREAK) or IP._has_ret(tree)):
            raise point.Undefined("loop with several exits")
        st = []
        for h, i in zip(heads, init):
            st.append(self.val(i) if h.op == "sym" else None)
        lo = 0
        if L.kind == "lax.fori_loop":
            lo = self.int_(L.extra["range"].args[0])
        k = lo
        while True:
            env = dict(self.env)
            for h, v in zip(heads, st):
                if h.op == "sym":
                    env[h] = v
            if idx is not None:
                env[idx] = k
            c = self.child(env)
            more = c.val(guard)
            if np.ndim(more) != 0:
                raise point.Undefined("guard is an array")
            if not bool(more):
                break
            if k - lo >= self.BOUND:
                raise TooLong(L.label, k - lo)
            st = [c.val(b) if h.op == "sym" else None for h, b in zip(heads, body)]
            for v in st:
                if v is not None and not isinstance(v, tuple) and np.any(np.isnan(np.asarray(v, complex))):
                    raise point.Undefined("nan in the history")
            k += 1
        self.steps[L.label] = k - lo
        for h, v in zip(heads, st):
            if h.op == "sym":
                self.env[h] = v
        if idx is not None:
            self.env[idx] = k
