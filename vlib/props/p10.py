"""P10 indicators and projectors."""
import numpy as np

from .. import eqv
from .. import interp as IP
from .. import ops
from .. import point
from .. import term as T
from ..term import num, ONE, ZERO, const, NONE
from .p11 import interp, vec, loc

EXPLANATION = (
    "Indicator and projector constructors are analysed with symbolic set parameters; the value number of the indicator at a symbolic "
    "point is compared with 'infinity iff outside the set' (strictness of every comparison included), the value number of the "
    "projector with the Euclidean projection onto the same set. For each set offered both ways the two summaries are also checked against "
    "each other: inside the set the projector is the identity. A difference is reported only with a separating point (points on the boundary included).")
FLOOR = 15
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "closed forms of the projections in vlib/props/p10.py"]

SPEC = '''
def ind(outside):
    return jnp.where(outside, jnp.inf, 0)

def i_zero(x):
    return ind(jnp.any(x != 0))
def i_singleton(x, c):
    return ind(jnp.any(x - c != 0))
def i_upper(x, u):
    return ind(jnp.any(x > u))
def i_lower(x, l):
    return ind(jnp.any(x < l))
def i_box(x, l, u):
    return ind(jnp.logical_or(jnp.any(x < l), jnp.any(x > u)))
def i_conic(x):
    return ind(jnp.linalg.norm(x[:-1]) > x[-1])
def i_l2(x, q):
    return ind(jnp.linalg.norm(x) > q)
def i_l1(x, q):
    return ind(jnp.sum(jnp.abs(x)) > q)

def p_upper(x, u):
    return jnp.minimum(x, u)
def p_lower(x, l):
    return jnp.maximum(x, l)
def p_box(x, l, u):
    return jnp.minimum(jnp.maximum(x, l), u)
def p_l2(x, q):
    r = jnp.linalg.norm(x)
    return jnp.where(r > q, q / r * x, x)
def p_l2s(x, q):
    r = jnp.linalg.norm(x)
    return jnp.where(r > q, (q - 1e-7) / r * x, x)
def p_conic(x):
    z, t = x[:-1], x[-1]
    r = jnp.linalg.norm(z)
    up = (r + t) / 2 * jnp.append(z / r, 1)
    return jnp.where(r > jnp.abs(t), up, jnp.where(t > 0, x, jnp.zeros_like(x)))
def p_affine(x, A, b):
    return x + A.T @ (jnp.linalg.inv(A @ A.T) @ (b - A @ x))
def p_l1(x, q):
    u = jnp.sort(jnp.abs(x))[::-1]
    cu = jnp.cumsum(u)
    k = jnp.arange(1, 1 + len(u))
    flags = cu - q > u * k
    K = jnp.argmax(flags)
    K = jnp.where(K == 0, len(flags), K)
    kappa = (cu[K - 1] - q) / K
    y = jnp.maximum(0, x - kappa) + jnp.minimum(0, x + kappa)
    return jnp.where(jnp.sum(jnp.abs(x)) > q, y, x)
def to_ball(x, q):
    r = jnp.linalg.norm(x)
    return jnp.where(r > q, q / r * x, x)
def to_box(x, q):
    return q * x / jnp.maximum(jnp.abs(x), q)
def to_upper(x, q):
    return jnp.minimum(x, q)
def shrink(a, k):
    return jnp.maximum(0, a - k) + jnp.minimum(0, a + k)
'''


def pos(name):
    s = ops.scalar(name, True)
    T.CTX.nonneg.add(s)
    return s


def sizes(s):
    return {T.sym("n"): 3 + s % 3, T.sym("m"): 2}


def points(kind):
    """generic, inside, and boundary points for the set"""
    out = []
    x, q, b, c = T.sym("x"), T.sym("q"), T.sym("b"), T.sym("c")
    for s in range(72):
        r = point.rng_for("p10", kind, s)
        P = point.Point(salt=s, sizes=sizes(s))
        n = P.sizes[T.sym("n")]
        if "ball" in kind:
            P.env[q] = float(0.5 + r.rand() * 2) * (1.0, 1.0, 40.0, 0.02)[s // 18]
            bb = r.randn(n) if "b" in kind.split()[1:] else 0.0
            if "b" in kind.split()[1:]:
                P.env[b] = bb
            if "A" in kind.split():
                out.append(P)
                continue
            z = r.randn(n) * (0.1 if s % 3 == 0 else 2.0) * (1.0, 1.0, 40.0, 0.02)[s // 18]
            if s >= 18 and s % 3 == 1:      # one coordinate far out, or all of the same sign
                z = np.abs(z) if s % 2 else z * np.eye(n)[s % n] * 5
            if s % 3 == 2:          # exactly on the boundary
                if kind.startswith("ball2"):
                    z = np.zeros(n)
                    z[0], z[1] = 0.6 * P.env[q], -0.8 * P.env[q]
                else:
                    z = np.zeros(n)
                    z[0], z[1] = 0.25 * P.env[q], -0.75 * P.env[q]
            elif s % 6 == 4:        # several equal magnitudes and zeros
                z = np.sign(r.randn(n)) * P.env[q]
                z[-1] = 0
            if s >= 60:             # between the balls of the other norms
                z = np.sign(r.randn(n)) * (0.9 + 0.2 * r.rand(n))
                w = [np.sum(np.abs(z)), np.linalg.norm(z), np.max(np.abs(z))][0 if kind.startswith("ball1") else 1]
                z = z / w * P.env[q] * (1.1 if s % 2 else 0.9)
            P.env[x] = z + bb
        elif kind == "box":
            l = r.randn(n)
            u = l + 0.2 + r.rand(n)
            if s % 6 == 1:          # degenerate box
                u = l.copy()
            z = l + (u - l) * (r.rand(n) * 3 - 1)
            if s % 3 == 2:
                z = np.where(r.rand(n) < 0.5, l, u)
            elif s % 3 == 0:
                z = l + (u - l) * r.rand(n)
            if s >= 18 and s % 3 == 1:      # a single coordinate violates its bound, well inside the others' bounds
                z = l + (u - l) * (0.3 + 0.4 * r.rand(n))
                i = s % n
                j = int(np.argmax(l) if s % 2 else np.argmin(u))
                i = j if s % 4 < 2 else i
                z[i] = l[i] - 0.05 if s % 2 else u[i] + 0.05
            P.env.update({T.sym("l"): l, T.sym("u"): u, x: z})
        elif kind == "conic":
            z = r.randn(n)
            m = s % 6
            nr = np.linalg.norm(z[:-1])
            z[-1] = [nr * 1.5, -nr * 1.5, nr * 0.3, -nr * 0.3, nr, -nr][m]
            if m in (4, 5):
                z[:-1] = 0
                z[0] = 0.5
                z[-1] = 0.5 if m == 4 else -0.5
            P.env[x] = z * (1.0, 1.0, 100.0, 0.01)[s // 18]
        elif kind == "zero":
            P.env[x] = np.zeros(n) if s % 2 else r.randn(n)
            if s % 4 == 2:
                P.env[x] = np.zeros(n)
                P.env[x][s % n] = 0.3 if s % 8 else -0.3
        elif kind == "singleton":
            P.env[c] = r.randn(n)
            P.env[x] = P.env[c] + (0 if s % 2 else 0.5 * r.randn(n))
            if s % 4 == 2:
                P.env[x] = P.env[c].copy()
                P.env[x][s % n] += 0.4 if s % 8 else -0.4
        elif kind.startswith("affine"):
            A = r.randn(2, n)
            P.env[T.sym("A")] = A
            z = r.randn(n)
            P.env[x] = z
            if kind == "affine":
                P.env[b] = A @ z if s % 2 else r.randn(2)
            elif s % 2:             # exactly in the null space
                z = np.zeros(n)
                z[0], z[1], z[2] = 1.0, 2.0, -1.0
                A = np.round(A * 3)
                A[0, 2], A[1, 2] = A[0, 0] + 2 * A[0, 1], A[1, 0] + 2 * A[1, 1]
                A[:, 0] += [0, 7]
                A[:, 2] += [0, 7]
                P.env[T.sym("A")] = A
                P.env[x] = z
        elif kind == "boxaffine":
            l = r.randn(n)
            u = l + 0.5 + r.rand(n)
            z = l + (u - l) * r.rand(n)
            a = r.randn(n)
            if s % 4 == 1:
                z[0] = u[0] + 0.1
            elif s % 4 == 2:
                z[0] = l[0] - 0.1
            P.env.update({T.sym("l"): l, T.sym("u"): u, x: z, T.sym("a"): a, T.sym("alpha"): float(a @ z) + (0.3 if s % 4 == 3 else 0) - (0.6 if s % 8 == 7 else 0)})
        out.append(P)
    return out


def run(r):
    T_ = lambda f: f
    jobs = []

    def both(label, ind, proj, args, i_spec, p_specs, kind, sargs=None, shift=None):
        jobs.append((label, ind, proj, args, i_spec, p_specs, kind, sargs, shift))
    X = lambda: vec()
    both("zero", "indicator_zero", "proj_zero", lambda: [], ("i_zero", []), [("zeros", [])], "zero")
    both("singleton", "indicator_singleton", "proj_singleton", lambda: [vec("c")], ("i_singleton", ["c"]), [("const", ["c"])], "singleton")
    both("box l", "indicator_box", "proj_box", lambda: [vec("l")], ("i_lower", ["l"]), [("p_lower", ["l"])], "box")
    both("box u", "indicator_box", "proj_box", lambda: [NONE, vec("u")], ("i_upper", ["u"]), [("p_upper", ["u"])], "box")
    both("box l,u", "indicator_box", "proj_box", lambda: [vec("l"), vec("u")], ("i_box", ["l", "u"]), [("p_box", ["l", "u"])], "box")
    both("cone", "indicator_conic", "proj_conic", lambda: [], ("i_conic", []), [("p_conic", [])], "conic")
    both("affine", "indicator_affine", "proj_affine", lambda: [mat(), ops.array("b", ops.size("m"), real=True)], None, [("p_affine", ["A", "b"])], "affine")
    both("affine b=0", "indicator_affine", "proj_affine", lambda: [mat()], None, [("p_affine0", ["A"])], "affine0")
    both("l2 ball", "indicator_l2_ball", "proj_l2_ball", lambda: [pos("q")], ("i_l2", ["q"]), [("p_l2", ["q"]), ("p_l2s", ["q"])], "ball2")
    both("l2 ball b", "indicator_l2_ball", "proj_l2_ball", lambda: [pos("q"), vec("b")], ("i_l2", ["q"]), [("p_l2", ["q"]), ("p_l2s", ["q"])], "ball2 b", shift="b")
    both("l1 ball", "indicator_l1_ball", "proj_l1_ball", lambda: [pos("q")], ("i_l1", ["q"]), [("p_l1", ["q"])], "ball1")
    both("l1 ball b", "indicator_l1_ball", "proj_l1_ball", lambda: [pos("q"), vec("b")], ("i_l1", ["q"]), [("p_l1", ["q"])], "ball1 b", shift="b")
    for j in jobs:
        r.guard("set", j[0], lambda: one(r, *j))
    for nm, sp, kind in (("indicator_l2_ball", "i_l2", "ball2 A"), ("indicator_l1_ball", "i_l1", "ball1 A")):
        for wb in (False, True):
            r.guard("indicator", nm + " A", lambda: ball_A(r, nm, sp, kind, wb))
    r.guard("indicator", "box affine", lambda: box_affine(r))
    r.guard("projector", "identity", lambda: ident(r))
    for nm, sp in (("project_to_ball", "to_ball"), ("project_to_box", "to_box"), ("project_to_real_upper_limit", "to_upper"), ("shrink", "shrink")):
        r.guard("projection", nm, lambda: simple(r, nm, sp))


def mat():
    return ops.array("A", ops.size("m"), ops.size("n"), real=True)


def qr_rule(t):
    """with R the triangular factor of M:  solve R (solve R' v) = (M'M)^-1 v"""
    def f(x):
        if x.op == "call" and x.args[0] == "linalg.solve_triangular" and len(x.args[1]) == 2 and not x.args[2]:
            R, v = x.args[1]
            v = qr_rule(v)
            if v.op == "sum":
                return T.add(*[T.scale(f(T.mk("call", x.args[0], (R, m), ())) or T.mk("call", x.args[0], (R, m), ()), c) for m, c in v.args[0]])
            if v.op == "call" and v.args[0] == x.args[0] and v.args[1][0] is R and dict(v.args[2]) == {"trans": const("T")}:
                if R.op == "call" and R.args[0] == "linalg.qr" and (const("r") in R.args[1][1:] or dict(R.args[2]).get("mode") is const("r")):
                    M = R.args[1][0]
                    return T.mm(T.mk("call", "linalg.inv", (T.mm(T.transpose(M), M),), ()), qr_rule(v.args[1][1]))
        return None
    return T.rebuild(t, f)


def one(r, label, ind, proj, args, i_spec, p_specs, kind, sargs, shift):
    I = interp()
    x = vec()
    S_ = lambda n: I.spec(SPEC, n)
    a = args()
    pts = points(kind)
    sy = {k: T.sym(k) for k in ("q", "l", "u", "c", "A", "b")}
    z = x if not shift else T.sub(x, T.sym(shift))
    iv = pv = None
    if ind:
        w = loc(I, ind)
        f = I.call(I.get("cr.sparse.opt", ind), list(a), {})
        iv = I.to_term(I.call(f, [x], {}))
        if i_spec:
            sp = I.to_term(I.call(S_(i_spec[0]), [z] + [sy[k] for k in i_spec[1]], {}))
            v, d = eqv.decide(iv, sp, pts)
            r.add("indicator-of-set", label, v, w, d)
        else:
            affine(r, label, iv, pts, w, kind)
    if proj:
        w = loc(I, proj)
        f = I.call(I.get("cr.sparse.opt", proj), list(a), {})
        pv = qr_rule(I.to_term(I.call(f, [x], {})))
        sps = []
        for nm, ks in p_specs:
            if nm == "zeros":
                s = T.mk("zeros", ops.size("n"))
            elif nm == "const":
                s = T.mk("call", "np.broadcast_to", (sy["c"], T.mk("shape", x)), ())
            elif nm == "p_affine0":
                s = I.to_term(I.call(S_("p_affine"), [z, sy["A"], ZERO], {}))
            else:
                s = I.to_term(I.call(S_(nm), [z] + [sy[k] for k in ks], {}))
            if shift:
                s = T.add(s, T.sym(shift))
            sps.append(s)
            if nm == "const":
                sps.append(sy["c"])
        v, d = eqv.decide_any(pv, sps, pts)
        r.add("projection-onto-set", label, v, w, d)
    if iv is not None and pv is not None:
        agree(r, label, iv, pv, x, pts, loc(I, proj))


def agree(r, label, iv, pv, x, pts, w):
    """inside the set the projector is the identity; projected points are inside"""
    n = 0
    for P in pts:
        try:
            i = float(P.val(iv))
            p = P.val(pv)
        except Exception:       # noqa
            continue
        p = np.broadcast_to(np.asarray(p, float), np.shape(P.env[x]))
        if np.any(np.isnan(p)):
            continue
        n += 1
        if i == 0 and point.differ(p, P.env[x]) is True:
            r.refuted("indicator-projector-agree", label, w, "the indicator is zero at %s but the projector moves it to %s" % (point.fmt(P.env[x]), point.fmt(p)))
            return
        if i != 0 and point.differ(p, P.env[x], 1e-12) is False:
            r.refuted("indicator-projector-agree", label, w, "the indicator is infinite at %s but the projector leaves it" % point.fmt(P.env[x]))
            return
    if n:
        r.proved("indicator-projector-agree", label, w, "summaries agree on %d cells (inside, boundary, outside)" % n)
    else:
        r.unknown("indicator-projector-agree", label, w, "summaries not interpreted")


def affine(r, label, iv, pts, w, kind):
    """infinite iff the residual norm, relative or absolute, exceeds a small tolerance"""
    x, A, b = T.sym("x"), T.sym("A"), T.sym("b")
    ok = False
    if iv.op == "ite":
        for c, inf in ((iv.args[0], iv.args[1]), (T.not_(iv.args[0]), iv.args[2])):
            if inf is T.INF and c.op == "cmp":
                res = T.sub(T.mm(A, x), b) if kind == "affine" else T.mm(A, x)
                ok = T.n2(res) in T.subterms(c) or T.n2(T.neg(res)) in T.subterms(c)
    bad = None
    n = 0
    for s, P in enumerate(pts):
        try:
            i = float(P.val(iv))
        except Exception:       # noqa
            continue
        if np.isnan(i):
            continue
        bb = P.val(b) if kind == "affine" else 0.0
        res = np.linalg.norm(P.val(A) @ P.val(x) - bb)
        n += 1
        if res > 1e-3 and i == 0:
            bad = "zero at a point with residual norm %.3g" % res
        if res < 1e-14 and i != 0:
            bad = "infinite at a point of the set"
    if bad:
        r.refuted("indicator-of-set", label, w, bad)
    elif ok and n:
        r.proved("indicator-of-set", label, w, "compares the norm of A x - b with a tolerance; agrees on %d points" % n)
    else:
        r.unknown("indicator-of-set", label, w, "form not recognised (%d points agree)" % n)


def ball_A(r, nm, sp, kind, wb):
    I = interp()
    x = vec()
    w = loc(I, nm)
    b = ops.array("b", ops.size("m"), real=True)
    f = I.call(I.get("cr.sparse.opt", nm), [pos("q"), b if wb else NONE, mat()], {})
    iv = I.to_term(I.call(f, [x], {}))
    res = T.mm(mat(), x)
    if wb:
        res = T.sub(res, b)
    spec = I.to_term(I.call(I.spec(SPEC, sp), [res, pos("q")], {}))
    pts = points(kind + (" b" if False else ""))
    for s, P in enumerate(pts):
        P.env[T.sym("q")] = float(0.3 + 0.6 * s)
    v, d = eqv.decide(iv, spec, pts)
    r.add("indicator-of-set", "%s A%s" % (nm, " b" if wb else ""), v, w, d)


def box_affine(r):
    nm = "indicator_box_affine"
    for l, u in ((1, 1), (0, 1), (1, 0)):
        I = interp()
        x = vec()
        w = loc(I, nm)
        a, al = vec("a"), ops.scalar("alpha", True)
        f = I.call(I.get("cr.sparse.opt", nm), [vec("l") if l else NONE, vec("u") if u else NONE, a, al], {})
        iv = I.to_term(I.call(f, [x], {}))
        tol = num(1e-6)
        parts = []
        lo = T.mk("any0", T.cmp("lt", x, vec("l"))) if l else T.mk("any0", T.cmp("lt", x, T.mk("call", "np.full_like", (a, T.neg(T.INF)), ())))
        hi = T.mk("any0", T.cmp("lt", vec("u"), x)) if u else T.mk("any0", T.cmp("lt", T.mk("call", "np.full_like", (a, T.INF), ()), x))
        mis = T.cmp("lt", tol, T.abs_(T.sub(T.vdot(a, x), al)))
        spec = T.ite(T.or_(lo, hi, mis), T.INF, ZERO)
        v, d = eqv.decide(iv, spec, points("boxaffine"))
        r.add("indicator-of-set", "box affine l=%d u=%d" % (l, u), v, w, d)


def ident(r):
    I = interp()
    x = vec()
    f = I.call(I.get("cr.sparse.opt", "proj_identity"), [], {})
    v, d = eqv.decide(I.to_term(I.call(f, [x], {})), x, points("ball2"))
    r.add("projection-onto-set", "identity", v, loc(I, "proj_identity"), d)


def simple(r, nm, sp):
    I = interp()
    x, q = vec(), pos("q")
    got = I.to_term(I.call(I.get("cr.sparse.opt", nm), [x, q], {}))
    want = I.to_term(I.call(I.spec(SPEC, sp), [x, q], {}))
    v, d = eqv.decide(got, want, points("ball2"))
    r.add("projection-onto-set", nm, v, loc(I, nm), d)
