"""P11 smooth functions: value, gradient, pair."""
import numpy as np

from .. import eqv
from .. import diff
from .. import interp as IP
from .. import ops
from .. import point
from .. import shape as S
from .. import term as T
from ..term import num, ONE, ZERO, const, NONE

EXPLANATION = (
    "Every smooth-function constructor of cr.sparse.opt is analysed with symbolic data; the value numbers of its value, gradient "
    "and combined entries at a symbolic point are computed from the source. The gradient value number is compared with the "
    "derivative obtained by reverse accumulation over the value number of the value entry, the combined entry with the pair, "
    "the value with the documented function. Equality: normal form, branch cases, ordering cells; a difference is reported only with a separating point.")
FLOOR = 15
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "derivative rules in vlib/diff.py"]


def interp():
    ops.reset()
    T.CTX.real = True
    I = IP.Interp()
    return I


def vec(name="x", n="n"):
    return ops.array(name, ops.size(n), real=True)


def ufun(name, shape):
    """an arbitrary function value"""
    return ("uf", name, shape)


def points(x, kind, n=18, sizes=None, extra=None):
    out = []
    for s in range(n):
        r = point.rng_for("pt", s)
        P = point.Point(salt=s, sizes={T.sym("n"): 3 + s % 3, T.sym("m"): 2 + s % 3, **(sizes or {})})
        k = (1.0, 1.0, 50.0, 0.02)[s // 6 % 4]
        if kind == "pos" and s % 3 != 2:
            P.env[x] = (np.abs(r.randn(P.sizes[T.sym("n")])) + 0.1) * k
        elif kind == "spd":
            d = P.sizes[T.sym("n")]
            B = r.randn(d, d)
            P.env[x] = (B @ B.T + np.eye(d)) * k
        elif kind == "wide":
            P.env[x] = r.randn(P.sizes[T.sym("n")]) * (3.0 if s % 2 else 0.7) * k
        if extra:
            extra(P, s, r)
        out.append(P)
    return out


class ArbFunc:
    """opaque function given as constructor argument: hooks 'apply'"""


def arb(I, table):
    """table: term(attr or sym) -> (name, shape fn(args)); applications become uf terms"""
    def h(I2, t, ta, tk, node):
        if t in table and not tk:
            name, sh = table[t]
            r = T.mk("uf", name, sh(ta) if callable(sh) else sh, tuple(ta))
            if r.args[1] == ():
                T.CTX.scalars.add(r)
            else:
                T.CTX.shapes[r] = r.args[1]
            T.CTX.reals.add(r)
            return r
        return None
    I.hooks["apply"] = h


def symm(P):
    def ex(pt, s, r):
        k = pt.sizes[T.sym("n")]
        B = r.randn(k, k)
        pt.env[P] = B + B.T
    return ex


def cases():
    C = []

    def c(name, label, build, value, kind="any", facts=None, extra=None, norm=None):
        C.append((name, label, build, value, kind, extra, norm))
    sc = lambda n: ops.scalar(n, True)

    c("smooth_constant", "", lambda I: ([sc("c")], {}), lambda x: sc("c"))
    ent = lambda x: T.ite(T.mk("any0", T.cmp("lt", x, ZERO)), T.neg(T.INF), T.neg(T.vdot(x, T.mk("log", x))))
    c("smooth_entropy", "", lambda I: ([], {}), ent, "pos")
    c("smooth_entropy_vg", "", lambda I: ([], {}), ent, "pos")

    def tau():
        t = sc("tau")
        T.CTX.nonneg.add(t)
        return t

    def hub(x):
        from .. import prims
        t = tau()
        m = T.abs_(x)
        return prims.sum0(T.ite(T.cmp("le", m, t), T.mul(num(0.5), T.power(m, 2), T.power(t, -1)), T.sub(m, T.scale(t, 0.5))))
    c("smooth_huber", "", lambda I: ([tau()], {}), hub, "wide")
    c("smooth_huber", "2d", lambda I: ([tau()], {}), hub, "2d")
    c("smooth_constant", "2d", lambda I: ([sc("c")], {}), lambda x: sc("c"), "2d")
    c("smooth_quad_matrix", "2d", lambda I: ([], {}), lambda x: T.scale(T.n2(x), 0.5), "2d")
    C2 = lambda: ops.array("C", ops.size("n"), ops.size("m"), real=True)
    c("smooth_linear", "2d", lambda I: ([C2(), sc("D")], {}), lambda x: T.add(T.vdot(C2(), x), sc("D")), "2d")
    c("smooth_linear", "", lambda I: ([vec("C"), sc("D")], {}), lambda x: T.add(T.vdot(vec("C"), x), sc("D")))
    c("smooth_linear", "default offset", lambda I: ([vec("C")], {}), lambda x: T.vdot(vec("C"), x))

    def mat(nm):
        return ops.array(nm, ops.size("n"), ops.size("n"), real=True)

    def ld(x):
        from .. import prims
        return T.mul(num(-2), sc("q"), prims.sum0(T.mk("log", T.mk("call", "np.diag", (T.mk("call", "linalg.cholesky", (x,), ()),), ()))))
    c("smooth_logdet", "", lambda I: ([sc("q")], {}), ld, "spd")
    c("smooth_logdet", "with C", lambda I: ([sc("q"), mat("C")], {}), lambda x: T.add(ld(x), T.vdot(mat("C"), x)), "spd")

    def P_():
        return mat("P")

    def quad(P, q, r):
        def f(x):
            v = T.scale(T.n2(x) if not P else T.vdot(x, T.mm(P_(), x)), 0.5)
            if q:
                v = T.add(v, T.vdot(vec("q"), x))
            if r:
                v = T.add(v, sc("r"))
            return v
        return f

    def unT(t):
        """P is symmetric"""
        return T.subst(t, {T.mk("T", P_()): P_()})
    for P in (0, 1):
        for q in (0, 1):
            for r in (0, 1):
                kw = {}
                if P:
                    kw["P"] = P_
                if q:
                    kw["q"] = lambda: vec("q")
                if r:
                    kw["r"] = lambda: sc("r")
                c("smooth_quad_matrix", "P=%d q=%d r=%d" % (P, q, r),
                  (lambda kw: lambda I: ([], {k: v() for k, v in kw.items()}))(kw), quad(P, q, r), extra="P" if P else None, norm=unT)
    A = lambda: ops.array("A", ops.size("m"), ops.size("n"), real=True)
    b = lambda: ops.array("b", ops.size("m"), real=True)
    c("smooth_quad_error", "", lambda I: ([A(), b()], {}), lambda x: T.scale(T.n2(T.sub(T.mm(A(), x), b())), 0.5))
    return C


def fields(I, o):
    if isinstance(o, IP.NT):
        return {k: o.fields.get(k) for k in ("func", "grad", "grad_val")}
    return None


def pair(I, v):
    if isinstance(v, IP.PyTuple) and len(v.items) == 2:
        return [I.to_term(x) for x in v.items]
    t = I.to_term(v)
    if t.op == "tuple" and len(t.args[0]) == 2:
        return list(t.args[0])
    if t.op == "ite":
        a, b = pair(I, t.args[1]), pair(I, t.args[2])
        if a and b:
            return [T.ite(t.args[0], x, y) for x, y in zip(a, b)]
    if isinstance(v, IP.IteVal):
        a, b = pair(I, v.a), pair(I, v.b)
        if a and b:
            return [T.ite(v.c, x, y) for x, y in zip(a, b)]
    return None


def where(I, f):
    while isinstance(f, (IP.Jit,)):
        f = f.func
    if isinstance(f, IP.Func):
        return (f.module.rel, getattr(f.node, "lineno", 0))
    return None


def loc(I, name, mod="cr.sparse.opt"):
    f = I.get(mod, name)
    return where(I, f) or ("src/" + mod.replace(".", "/"), 0)


def run(r):
    for name, label, build, value, kind, extra, norm in cases():
        r.guard("smooth", "%s %s" % (name, label), lambda: one(r, name, label, build, value, kind, extra, norm))
    r.guard("smooth", "translate", lambda: translate(r))
    r.guard("smooth", "builders", lambda: builders(r))
    r.guard("smooth", "moreau", lambda: moreau(r))
    r.guard("smooth", "modes", lambda: modes(r))


def one(r, name, label, build, value, kind, extra, norm):
    I = interp()
    con = ("%s %s" % (name, label)).strip()
    w = loc(I, name)
    args, kw = build(I)
    o = I.call(I.get("cr.sparse.opt", name), args, kw)
    f = fields(I, o)
    if f is None:
        r.unknown("smooth-object", con, w, "constructor does not build a SmoothFunction")
        return
    x = ops.array("x", ops.size("n"), ops.size("n"), real=True) if kind == "spd" else vec()
    if kind == "2d":
        x = ops.array("x", ops.size("n"), ops.size("m"), real=True)
    ex = None
    if extra == "P":
        ex = symm(T.sym("P"))
    pts = points(x, kind, extra=ex)
    nm = norm or (lambda t: t)
    v = nm(I.to_term(I.call(f["func"], [x], {})))
    g = nm(I.to_term(I.call(f["grad"], [x], {})))
    spec = nm(value(x))
    ver, d = eqv.decide(v, spec, pts)
    r.add("documented-value", con, ver, w, d)
    if kind == "spd":
        pts = points(x, kind, extra=ex)
    try:
        dv = nm(diff.gradient(v, x))
        if kind == "pos":
            # inside the domain
            c = T.mk("any0", T.cmp("lt", x, ZERO))
            dv, g1 = T.assume(dv, c, False), T.assume(g, c, False)
            pts2 = [p for i, p in enumerate(points(x, kind)) if i % 3 != 2]
            ver, d = eqv.decide(g1, dv, pts2)
        else:
            ver, d = eqv.decide(g, dv, pts)
    except diff.NoRule as e:
        ver, d = "unknown", str(e)
    r.add("gradient-is-derivative", con, ver, w, d)
    pairs(r, I, f, x, nm, con, w, pts)
    if kind == "pos":
        domain(r, I, f, x, con, w)


def domain(r, I, f, x, con, w):
    """finite on the closed orthant, minus infinity off it; the gradient is undefined (not a number) off it"""
    import warnings
    gv = pair(I, I.call(f["grad_val"], [x], {}))
    v = {"func": I.to_term(I.call(f["func"], [x], {})), "grad": I.to_term(I.call(f["grad"], [x], {}))}
    if gv:
        v["grad_val gradient"], v["grad_val value"] = gv
    for k, t in v.items():
        bad, n = None, 0
        for s in range(12):
            P = point.Point(salt=s, sizes={T.sym("n"): 3 + s % 3})
            z = np.abs(point.rng_for("dom", s).randn(P.sizes[T.sym("n")])) + 0.1
            j = s % len(z)
            if s % 3 == 0:
                z[j] = 0.0
            elif s % 3 == 1:
                z[j] *= -1
            elif s % 2:
                z = -z
            inside = not (z < 0).any()
            P.env[x] = z
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = np.asarray(P.val(t))
            except Exception:  # noqa
                continue
            n += 1
            if "grad" == k or k.endswith("gradient"):
                ok = inside or np.all(np.isnan(got)) or np.all(np.isinf(got))
                ok = ok and not (inside and (z > 0).all() and np.any(np.isnan(got)))
            else:
                ok = not np.any(np.isneginf(got)) if inside else np.all(np.isneginf(got))
            if not ok:
                bad = "%s is %s at x = %s" % (k, point.fmt(got), point.fmt(z))
        if bad:
            r.refuted("domain", "%s %s" % (con, k), w, bad)
        else:
            r.add("domain", "%s %s" % (con, k), "proved" if n else "unknown", w, "finite on the closed orthant only (%d cells)" % n)


def pairs(r, I, f, x, nm, con, w, pts):
    v = nm(I.to_term(I.call(f["func"], [x], {})))
    g = nm(I.to_term(I.call(f["grad"], [x], {})))
    gv = pair(I, I.call(f["grad_val"], [x], {}))
    if gv is None:
        r.unknown("combined-entry", con, w, "combined entry is not a recognisable pair")
        return
    for k, (got, want) in enumerate(((gv[0], g), (gv[1], v))):
        ver, d = eqv.decide(nm(got), want, pts)
        r.add("combined-entry", "%s [%s]" % (con, ("gradient", "value")[k]), ver, w, d)


def translate(r):
    I = interp()
    w = loc(I, "smooth_func_translate")
    x, b = vec(), vec("b")
    s = T.sym("f")
    cls = I.get("cr.sparse.opt", "SmoothFunction")
    n = (ops.size("n"),)
    gr = T.mk("attr", s, "grad")
    fu = T.mk("attr", s, "func")
    gv = T.mk("attr", s, "grad_val")

    def h(I2, t, ta, tk, node):
        if len(ta) != 1 or tk:
            return None
        if t is gv:
            return IP.PyTuple([uf("grad", n, ta), uf("func", (), ta)])
        if t is gr:
            return uf("grad", n, ta)
        if t is fu:
            return uf("func", (), ta)
        return None
    I.hooks["apply"] = h
    o = I.call(I.get("cr.sparse.opt", "smooth_func_translate"), [IP.NT(cls, {"func": fu, "grad": gr, "grad_val": gv}), b], {})
    f = fields(I, o)
    pts = points(x, "any")
    z = [T.add(x, b)]
    for k, got, want in (("func", I.call(f["func"], [x], {}), uf("func", (), z)), ("grad", I.call(f["grad"], [x], {}), uf("grad", n, z))):
        ver, d = eqv.decide(I.to_term(got), want, pts)
        r.add("chain-rule", "smooth_func_translate [%s]" % k, ver, w, d)
    pairs(r, I, f, x, lambda t: t, "smooth_func_translate", w, pts)


def uf(name, shape, args):
    t = T.mk("uf", name, shape, tuple(args))
    if shape == ():
        T.CTX.scalars.add(t)
    else:
        T.CTX.shapes[t] = shape
    T.CTX.reals.add(t)
    return t


def builders(r):
    for name, nargs in (("smooth_build2", 2), ("smooth_build3", 3), ("smooth_build", 1), ("build_grad_val_func", 2)):
        I = interp()
        w = loc(I, name)
        x = vec()
        n = (ops.size("n"),)
        fu, gr, gv = T.sym("F"), T.sym("G"), T.sym("GV")
        GR = T.mk("gradf", fu)

        def h(I2, t, ta, tk, node):
            if t is fu:
                return uf("F", (), ta)
            if t is gr:
                return uf("G", n, ta)
            if t is gv:
                return IP.PyTuple([uf("G", n, ta), uf("F", (), ta)])
            return None
        I.hooks["apply"] = h
        o = I.call(I.get("cr.sparse.opt", name), [fu, gr, gv][:nargs], {})
        pts = points(x, "any")
        if name == "build_grad_val_func":
            gvv = pair(I, I.call(o, [x], {}))
            if gvv is None:
                r.unknown("combined-entry", name, w, "not a pair")
                continue
            for k, got, want in (("gradient", gvv[0], uf("G", n, [x])), ("value", gvv[1], uf("F", (), [x]))):
                ver, d = eqv.decide(got, want, pts)
                r.add("combined-entry", "%s [%s]" % (name, k), ver, w, d)
            continue
        f = fields(I, o)
        v = I.to_term(I.call(f["func"], [x], {}))
        ver, d = eqv.decide(v, uf("F", (), [x]), pts)
        r.add("builder", "%s [value]" % name, ver, w, d)
        g = I.to_term(I.call(f["grad"], [x], {}))
        if name == "smooth_build":
            ok = g.op == "gradcall" and g.args[0] is fu and g.args[1] == (x,)
            r.add("builder", "%s [gradient]" % name, "proved" if ok else "unknown", w,
                  "automatic derivative of the value entry" if ok else "gradient is %s" % T.show(g, 3))
            gp = pair(I, I.call(f["grad_val"], [x], {}))
            if gp and gp[0] is g and gp[1] is v:
                r.proved("combined-entry", name, w, "pair of the entries")
            elif gp and gp[0] is v and gp[1] is g:
                r.refuted("combined-entry", name, w, "the pair is (value, gradient), the record promises (gradient, value)")
            else:
                r.unknown("combined-entry", name, w, "not recognised")
            continue
        ver, d = eqv.decide(g, uf("G", n, [x]), pts)
        r.add("builder", "%s [gradient]" % name, ver, w, d)
        pairs(r, I, f, x, lambda t: t, name, w, pts)


def moreau(r):
    """value f(p) + 1/(2 mu) |x - p|^2 with p the proximal point; by optimality
    of p the gradient is (x - p)/mu"""
    I = interp()
    w = loc(I, "moreau_envelope")
    x = vec()
    n = (ops.size("n"),)
    mu = ops.scalar("mu", True)
    T.CTX.nonneg.add(mu)
    s = T.sym("f")
    fu, pr, pv = (T.mk("attr", s, k) for k in ("func", "prox_op", "prox_vec_val"))
    pt = lambda a: uf("prox", n, a)

    def h(I2, t, ta, tk, node):
        if t is fu:
            return uf("f", (), ta)
        if t is pr:
            return pt(ta)
        if t is pv:
            return IP.PyTuple([pt(ta), uf("f", (), [pt(ta)])])
        return None
    I.hooks["apply"] = h
    cls = I.get("cr.sparse.opt", "ProxCapable")
    o = I.call(I.get("cr.sparse.opt", "moreau_envelope"), [IP.NT(cls, {"func": fu, "prox_op": pr, "prox_vec_val": pv}), mu], {})
    f = fields(I, o)
    p = pt([x, mu])
    v = T.add(uf("f", (), [p]), T.mul(num(0.5), T.power(mu, -1), T.n2(T.sub(x, p))))
    g = T.mul(T.power(mu, -1), T.sub(x, p))
    pts = points(x, "any")
    ver, d = eqv.decide(I.to_term(I.call(f["func"], [x], {})), v, pts)
    r.add("documented-value", "moreau_envelope", ver, w, d)
    ver, d = eqv.decide(I.to_term(I.call(f["grad"], [x], {})), g, pts)
    r.add("gradient-is-derivative", "moreau_envelope", ver, w, d)
    pairs(r, I, f, x, lambda t: t, "moreau_envelope", w, pts)


def modes(r):
    """smooth_value_grad(func, grad): 0 value, 1 gradient, 2 (value, gradient)"""
    I = interp()
    w = loc(I, "smooth_value_grad")
    x = vec()
    n = (ops.size("n"),)
    fu, gr = T.sym("F"), T.sym("G")

    def h(I2, t, ta, tk, node):
        if t is fu:
            return uf("F", (), ta)
        if t is gr:
            return uf("G", n, ta)
        return None
    I.hooks["apply"] = h
    o = I.call(I.get("cr.sparse.opt", "smooth_value_grad"), [fu, gr], {})
    pts = points(x, "any")
    F, G = uf("F", (), [x]), uf("G", n, [x])
    for m, want in ((0, F), (1, G)):
        ver, d = eqv.decide(I.to_term(I.call(o, [x, num(m)], {})), want, pts)
        r.add("combined-entry", "smooth_value_grad mode %d" % m, ver, w, d)
    p = pair(I, I.call(o, [x, num(2)], {}))
    if p is None:
        r.unknown("combined-entry", "smooth_value_grad mode 2", w, "not a pair")
        return
    for k, got, want in (("value", p[0], F), ("gradient", p[1], G)):
        ver, d = eqv.decide(got, want, pts)
        r.add("combined-entry", "smooth_value_grad mode 2 [%s]" % k, ver, w, d)
