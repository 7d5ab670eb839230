"""P04 residuals belong to the returned solution."""
import time

import numpy as np

from .. import eqv
from .. import interp as IP
from .. import inv
from .. import ops
from .. import par
from .. import point
from .. import shape as S
from .. import solve
from .. import term as T
from ..term import num, ONE, ZERO, mk

EXPLANATION = (
    "Every iterative solver is analysed with symbolic measurements, model and limits. Its result record is computed from the source as value "
    "numbers over the loop heads; inductive equalities between loop heads (residual, image, squared norm, selected columns) are inferred by "
    "keeping the candidates that hold initially and are preserved by the body. The obligations r = y - A x and norm = ||r|| are decided by "
    "substitution. An obligation that does not follow is reported only with a history of the recurrence on which the two sides differ.")
FLOOR = 60
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "entries of a returned support are distinct"]


def run(r):
    T.CTX.free_heads = True
    cs = [c for c in solve.table() if c.kw.get("x") or c.kw.get("support") or c.name == "lsqr"]
    par.each(r, cs, one, "residual")
    r.guard("signal", "RecoverySolution.x", lambda: signal(r))


def model(an):
    return T.sym("Phi")


def image(an, A, x):
    return T.app(A, "times", x) if an.case.model in ("op", "sqop") else T.mm(A, x)


def one(r, c):
    an = solve.Analysed(c)
    A = model(an)
    F = inv.Facts(an, A)
    for cond, rec in results(an):
        claims(r, c, an, A, F, cond, rec)


def results(an):
    out = []

    def go(v, cond):
        if isinstance(v, IP.IteVal):
            go(v.a, cond + [v.c])
            go(v.b, cond + [T.lnot(v.c)])
        else:
            out.append((cond, v))
    go(an.result, [])
    return out


def claims(r, c, an, A, F, cond, rec):
    I = an.I
    if not isinstance(rec, IP.NT):
        r.unknown("residual", c.construct, an.where, "result is not a record")
        return
    g = lambda n: I.to_term(I.getattr(rec, n))
    if c.name == "lsqr":
        estimates(r, c, an, A, g)
        return
    res = g("r")
    if c.kw.get("support"):
        Ax = T.mm(mk("cols", A, g("I")), g("x_I"))
    else:
        Ax = image(an, A, g("x"))
    if c.kw.get("sign"):
        Ax = mk("sign", Ax)
    decide(r, an, F, "residual", c.construct, res, T.sub(an.y, Ax))
    names = [n for n, _ in rec.cls.fields] if isinstance(rec, IP.NT) else []
    if "r_norm_sqr" in names:
        decide(r, an, F, "residual norm", c.construct, g("r_norm_sqr"), T.n2(res))
    if "gamma" in names and c.label != "preconditioned":
        decide(r, an, F, "residual norm", c.construct, g("gamma"), T.n2(res))
    if "r_norm" in names:
        decide(r, an, F, "residual norm", c.construct, g("r_norm"), T.sqrt(T.n2(res)))


def histories(an, n=240, seconds=20.0, extreme=True):
    """input points with varied sizes, limits and scales of the data"""
    t0 = time.time()
    for s in range(n):
        if time.time() - t0 > seconds:
            return
        N = (1, 2, 3, 5, 4, 8, 11)[s % 7]
        sizes = {T.sym("m"): 6, T.sym("n"): 8, T.sym("K"): 2, T.sym("N"): N, T.sym("M"): 2 + s % 3, T.sym("blk"): 2, T.sym("p"): 9, T.sym("d"): 3}
        P = inv.History(an, salt=s, sizes=sizes, cplx=not an.case.real)
        q = point.rng_for("history", s)
        P.rising = s % 5 == 3
        if an.case.model == "square" and s % 4 == 3:
            P.env[an.A] = P.val(an.A) * (1e-4, 1e3)[s // 4 % 2]
            P.memo.clear()
        if s % 2:
            y = P.val(an.y) * ((1.0, 10.0, 40.0, 1.0, 10.0, 1e-3, 1e4)[s // 2 % 7] if extreme else (1.0, 10.0, 40.0)[s // 2 % 3])
            P.env[an.y] = y
            for k in ("sigma", "tau", "delta", "rho"):
                if T.sym(k) in T.CTX.scalars:
                    P.env[T.sym(k)] = float(np.linalg.norm(y) * q.rand() * 1.2)
            for k in ("mu", "gamma", "tol", "damp"):
                if T.sym(k) in T.CTX.scalars:
                    P.env[T.sym(k)] = (0.3, 1.7, 0.05)[s // 2 % 3]
            for k in ("x0", "u0", "z0"):
                if T.sym(k) in T.CTX.shapes:
                    P.env[T.sym(k)] = P.val(T.sym(k)) * (0.01, 0.3, 1.0, 3.0)[s // 6 % 4]
            P.memo.clear()
        if T.sym("u0") in T.CTX.shapes and T.sym("x0") in T.CTX.shapes and s % 8 != 7:
            P.env[T.sym("u0")] = np.abs(P.val(T.sym("x0"))) + 0.5 + q.rand()
            P.memo.clear()
        yield P


def decide(r, an, F, rule, construct, lhs, rhs):
    if F.zero(T.sub(lhs, rhs)):
        r.proved(rule, construct, an.where, "; ".join(F.log)[:300])
        return
    kind, w = point.separate(lhs, rhs, histories(an), 1e-5)
    if kind != "differ":
        r.unknown(rule, construct, an.where, "not derived: %s = 0; histories: %s %s" % (T.show(F.apply(T.sub(lhs, rhs)), 6), kind, w))
        return
    r.refuted(rule, construct, an.where, "reported %s, expected %s (steps %s)" % (point.fmt(w[1]), point.fmt(w[2]), w[0].steps))


def estimates(r, c, an, A, g):
    """LSQR carries norms by recurrence; in exact arithmetic they are the norms of the (augmented) residual"""
    x, y = g("x"), an.y
    res = T.sub(y, image(an, A, x))
    d = an.kwargs.get("damp", ZERO)
    aug = T.sqrt(T.add(T.n2(res), T.mul(T.mul(d, d), T.n2(T.sub(x, T.sym("x0"))))))
    grad = T.sub(T.app(A, "trans", res), T.mul(T.mul(d, d), T.sub(x, T.sym("x0"))))
    for f, e in (("r_norm", aug), ("atr_norm", T.sqrt(T.n2(grad)))):
        kind, w = point.separate(g(f), e, histories(an, extreme=False), 1e-4)
        if kind == "differ":
            r.refuted("norm recurrence", c.construct + " " + f, an.where, "reported %s, norm is %s (steps %s)" % (point.fmt(w[1]), point.fmt(w[2]), w[0].steps))
        else:
            r.unknown("norm recurrence", c.construct + " " + f, an.where, "no inductive proof; histories: %s %s" % (kind, w))


def signal(r):
    """the full-length signal of a support/coefficients record"""
    ops.reset()
    T.CTX.real = True
    I = IP.Interp()
    cls = I.get("cr.sparse.pursuit", "RecoverySolution")
    n, K = ops.size("n"), ops.size("K")
    J = ops.array("J", K, real=True)
    v = ops.array("v", K, real=True)
    f = {k: T.sym(k) for k, _ in cls.fields}
    f.update(I=J, x_I=v, length=n)
    x = I.to_term(I.getattr(IP.NT(cls, f), "x"))
    want = mk("scatter", n, J, v)
    w = (cls.module.rel, cls.name, cls.node.lineno)
    if inv.canon(x, T.sym("Phi")) is want:
        r.proved("signal", "RecoverySolution.x", w, "zeros(length) with x_I at the positions I")
        return
    ps = []
    for s in range(4):
        P = point.Point(salt=s, sizes={n: 7, K: 3})
        P.env[J] = point.rng_for("sig", s).permutation(7)[:3]
        ps.append(P)
    kind, d = point.separate(x, want, ps)
    if kind == "differ":
        r.refuted("signal", "RecoverySolution.x", w, "%s instead of %s" % (point.fmt(d[1]), point.fmt(d[2])))
    else:
        r.unknown("signal", "RecoverySolution.x", w, T.show(x))
