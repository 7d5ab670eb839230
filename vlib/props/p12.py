"""P12 proximal operators."""
import numpy as np

from .. import eqv
from .. import interp as IP
from .. import ops
from .. import point
from .. import term as T
from ..term import num, ONE, ZERO, const, NONE
from .p11 import interp, vec, loc, uf, pair
from .p10 import pos, SPEC as SETS, points as set_points

EXPLANATION = (
    "Every prox-capable constructor of cr.sparse.opt is analysed with symbolic weights, point and step; the value numbers of "
    "its function, proximal and combined entries are computed from the source. Proximal entry: equality with the closed-form minimiser "
    "(ordering-cell case split); function entry: equality with the documented function; combined entry: (proximal point, function at that point). "
    "The sorted-l1 iteration is checked as a recurrence: initial state, exit guard, result, and block averaging. "
    "A difference is reported only with a separating point.")
FLOOR = 12
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py", "closed-form proximal maps in vlib/props/p12.py"]

SPEC = SETS + '''
def f_l2(x, q):
    return q * jnp.sqrt(jnp.sum(jnp.abs(x)**2))
def p_prox_l2(x, t, q):
    r = jnp.sqrt(jnp.sum(jnp.abs(x)**2))
    return jnp.where(r > t * q, (1 - t * q / r) * x, 0 * x)
def f_l1(x, q):
    return jnp.sum(jnp.abs(q * x))
def p_prox_l1(x, t, q):
    return jnp.where(x > t * q, x - t * q, jnp.where(x < - t * q, x + t * q, 0 * x))
def f_l1p(x, q):
    return jnp.where(jnp.any(x < 0), jnp.inf, jnp.sum(jnp.abs(q * x)))
def p_prox_l1p(x, t, q):
    return jnp.maximum(0, x - t * q)
def f_owl(x, lam):
    return jnp.sum(lam * jnp.sort(jnp.abs(x))[::-1])
'''


def pts(n=42, vec_q=False):
    out = []
    for s in range(n):
        r = point.rng_for("p12", s)
        P = point.Point(salt=s, sizes={T.sym("n"): 3 + s % 3, T.sym("m"): 2})
        k = P.sizes[T.sym("n")]
        q = float(0.2 + r.rand())
        g = (1.0, 1.0, 100.0, 0.01)[s // 14]
        P.env[T.sym("t")] = float(0.2 + 2 * r.rand()) * (1.0, 0.05, g, g)[s % 4]
        P.env[T.sym("q")] = (0.2 + r.rand(k)) if vec_q else q
        z = r.randn(k) * (0.2, 1.0, 4.0)[s % 3] * g
        if s % 5 == 4:
            z = np.abs(z)
        P.env[T.sym("x")] = z
        out.append(P)
    return out


def run(r):
    T.CTX.free_heads = True
    r.guard("prox", "zero", lambda: one(r, "prox_zero", "", lambda: [], None, lambda I, x, t: ZERO, lambda I, x, t: x))
    sp = lambda f, *ks: (lambda I, x, t: I.to_term(I.call(I.spec(SPEC, f), [x] + ([t] if f.startswith("p_prox") else []) + [T.sym(k) for k in ks], {})))
    qs = lambda: [pos("q")]

    def qv():
        v = vec("q")
        T.CTX.nonneg.add(v)
        return [v]
    r.guard("prox", "l2", lambda: one(r, "prox_l2", "", qs, pts(), sp("f_l2", "q"), sp("p_prox_l2", "q")))
    r.guard("prox", "l1", lambda: one(r, "prox_l1", "", qs, pts(), sp("f_l1", "q"), sp("p_prox_l1", "q")))
    r.guard("prox", "l1 weights", lambda: one(r, "prox_l1", "weights", qv, pts(vec_q=True), sp("f_l1", "q"), sp("p_prox_l1", "q")))
    r.guard("prox", "l1_pos", lambda: one(r, "prox_l1_pos", "", qs, pts(), sp("f_l1p", "q"), sp("p_prox_l1p", "q")))
    r.guard("prox", "l1_pos weights", lambda: one(r, "prox_l1_pos", "weights", qv, pts(vec_q=True), sp("f_l1p", "q"), sp("p_prox_l1p", "q")))
    r.guard("prox", "l1_ball", lambda: one(r, "prox_l1_ball", "", qs, set_points("ball1"), sp("i_l1", "q"), sp("p_l1", "q"), ind=True))
    r.guard("prox", "builders", lambda: builders(r))
    r.guard("prox", "modes", lambda: modes(r))
    r.guard("prox", "owl1", lambda: owl(r))


def one(r, name, label, args, points, fspec, pspec, ind=False):
    I = interp()
    con = ("%s %s" % (name, label)).strip()
    w = loc(I, name)
    x, t = vec(), pos("t")
    points = points or pts()
    o = I.call(I.get("cr.sparse.opt", name), args(), {})
    if not isinstance(o, IP.NT):
        r.unknown("prox-object", con, w, "constructor does not build a ProxCapable")
        return
    f = o.fields
    v, d = eqv.decide(I.to_term(I.call(f["func"], [x], {})), fspec(I, x, t), points)
    r.add("documented-function", con, v, w, d)
    p = I.to_term(I.call(f["prox_op"], [x, t], {}))
    v, d = eqv.decide(p, pspec(I, x, t), points)
    r.add("proximal-point", con, v, w, d)
    combined(r, I, f, x, t, con, w, points, ind)


def flat_state(I, v):
    if isinstance(v, IP.PyTuple):
        return [q for i in v.items for q in flat_state(I, i)]
    if isinstance(v, IP.NT):
        return [q for i in v.fields.values() for q in flat_state(I, i)]
    return [I.to_term(v)]


def same_loops(I, la, lb):
    """substitution of the heads of lb by those of la when the loops are the same recurrence"""
    m = {}
    if len(la) != len(lb):
        return m
    for a, b in zip(la, lb):
        ha, hb = flat_state(I, a.head), flat_state(I, b.head)
        if len(ha) != len(hb):
            return m
        sub = dict(m)
        sub.update(zip(hb, ha))
        go = lambda v: [T.subst(q, sub) for q in flat_state(I, v)]
        if flat_state(I, a.init) == go(b.init) and flat_state(I, a.body) == go(b.body) and (a.cond is b.cond or T.subst(b.cond, sub) is a.cond):
            m = sub
    return m


def combined(r, I, f, x, t, con, w, points, ind=False):
    n0 = len(I.loops)
    p = I.to_term(I.call(f["prox_op"], [x, t], {}))
    la = I.loops[n0:]
    n1 = len(I.loops)
    fv = I.to_term(I.call(f["func"], [p], {}))
    pv = pair(I, I.call(f["prox_vec_val"], [x, t], {}))
    if pv is None:
        r.unknown("combined-entry", con, w, "not a recognisable pair")
        return
    if la:
        m = same_loops(I, la, I.loops[n1:])
        pv = [T.subst(q, m) for q in pv]
    v, d = eqv.decide(pv[0], p, points)
    r.add("combined-entry", con + " [point]", v, w, d)
    if ind and pv[1] is ZERO:
        r.proved("combined-entry", con + " [value]", w, "indicator is zero at projected points")
        return
    v, d = eqv.decide(pv[1], fv, points)
    r.add("combined-entry", con + " [value]", v, w, d)


def builders(r):
    for name in ("prox_build", "build_from_ind_proj"):
        I = interp()
        w = loc(I, name)
        x, t = vec(), pos("t")
        n = (ops.size("n"),)
        fu, pr = T.sym("F"), T.sym("G")

        def h(I2, tm, ta, tk, node):
            if tm is fu:
                return uf("F", (), ta)
            if tm is pr:
                return uf("G", n, ta)
            return None
        I.hooks["apply"] = h
        o = I.call(I.get("cr.sparse.opt", name), [fu, pr], {})
        ps = pts()
        v, d = eqv.decide(I.to_term(I.call(o.fields["func"], [x], {})), uf("F", (), [x]), ps)
        r.add("builder", name + " [function]", v, w, d)
        pt = uf("G", n, [x, t] if name == "prox_build" else [x])
        v, d = eqv.decide(I.to_term(I.call(o.fields["prox_op"], [x, t], {})), pt, ps)
        r.add("builder", name + " [point]", v, w, d)
        combined(r, I, o.fields, x, t, name, w, ps, ind=(name != "prox_build"))


def modes(r):
    """prox_value_vec(func, prox_op): 0 value, 1 point, 2 (value at point, point)"""
    I = interp()
    w = loc(I, "prox_value_vec")
    x, t = vec(), pos("t")
    n = (ops.size("n"),)
    fu, pr = T.sym("F"), T.sym("G")

    def h(I2, tm, ta, tk, node):
        if tm is fu:
            return uf("F", (), ta)
        if tm is pr:
            return uf("G", n, ta)
        return None
    I.hooks["apply"] = h
    o = I.call(I.get("cr.sparse.opt", "prox_value_vec"), [fu, pr], {})
    ps = pts()
    p = uf("G", n, [x, t])
    for m, want in ((0, uf("F", (), [x])), (1, p)):
        v, d = eqv.decide(I.to_term(I.call(o, [x, t, num(m)], {})), want, ps)
        r.add("combined-entry", "prox_value_vec mode %d" % m, v, w, d)
    q = pair(I, I.call(o, [x, t, num(2)], {}))
    if q is None:
        r.unknown("combined-entry", "prox_value_vec mode 2", w, "not a pair")
        return
    for k, got, want in (("value", q[0], uf("F", (), [p])), ("point", q[1], p)):
        v, d = eqv.decide(got, want, ps)
        r.add("combined-entry", "prox_value_vec mode 2 [%s]" % k, v, w, d)


OWL = '''
def y0(x):
    a = jnp.abs(x)
    return a[jnp.argsort(a)[::-1]]
def out(x, y, l):
    a = jnp.abs(x)
    i = jnp.argsort(a)[::-1]
    z = y - l
    z = jnp.where(z > 0, z, 0)
    return jnp.sign(x) * jnp.zeros_like(z).at[i].set(z)
def merged(y, l):
    x = y - l
    n = len(x)
    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
    ids = jnp.cumsum(~mask) - 1
    c = jax.ops.segment_sum(jnp.ones_like(x), ids, num_segments=n)
    return (jax.ops.segment_sum(y, ids, num_segments=n) / c)[ids], (jax.ops.segment_sum(l, ids, num_segments=n) / c)[ids]
'''


def owl(r):
    name = "prox_owl1"
    I = interp()
    w = loc(I, name)
    x, t = vec(), pos("t")
    lam = vec("lam")
    T.CTX.nonneg.add(lam)
    o = I.call(I.get("cr.sparse.opt", name), [lam], {})
    ps = pts()
    for s, P in enumerate(ps):
        k = P.sizes[T.sym("n")]
        P.env[lam] = np.sort(0.2 + point.rng_for("lam", s).rand(k))[::-1]
    v, d = eqv.decide(I.to_term(I.call(o.fields["func"], [x], {})), I.to_term(I.call(I.spec(SPEC, "f_owl"), [x, lam], {})), ps)
    r.add("documented-function", name, v, w, d)
    n0 = len(I.loops)
    p = I.to_term(I.call(o.fields["prox_op"], [x, t], {}))
    loops = I.loops[n0:]
    combined(r, I, o.fields, x, t, name, w, [])
    if len(loops) != 1 or not isinstance(loops[0].init, IP.PyTuple) or len(loops[0].init.items) != 2:
        r.unknown("sorted-l1-iteration", name, w, "not the two-array averaging iteration")
        return
    L = loops[0]
    y, l = L.head.items
    for hsym in (y, l):
        if T.CTX.shapes.get(hsym) is None:
            T.CTX.shapes[hsym] = (ops.size("n"),)
    by, bl = [I.to_term(q) for q in L.body.items]
    iy, il = [I.to_term(q) for q in L.init.items]
    call = lambda f, *a: I.call(I.spec(OWL, f), list(a), {})
    v, d = eqv.decide(iy, I.to_term(call("y0", x)), ps)
    r.add("sorted-l1-iteration", name + " initial magnitudes", v, w, d)
    v, d = eqv.decide_any(il, [T.mul(t, lam)], ps)
    r.add("sorted-l1-iteration", name + " initial weights", v, w, d)
    qs = pts()
    for s, P in enumerate(qs):
        k = P.sizes[T.sym("n")]
        rg = point.rng_for("owlout", s)
        P.env[lam] = np.sort(0.2 + rg.rand(k))[::-1]
        P.env[l] = np.sort(0.2 + rg.rand(k))[::-1]
        P.env[y] = P.env[l] + np.sort(rg.randn(k))[::-1]
    v, d = eqv.decide(p, I.to_term(call("out", x, y, l)), qs)
    r.add("sorted-l1-iteration", name + " result", v, w, d)
    # exit guard and block averaging at heads with exactly one rising pair
    hp = []
    for s in range(8):
        P = point.Point(salt=s, sizes={T.sym("n"): 4 + s % 2})
        k = P.sizes[T.sym("n")]
        rg = point.rng_for("owlh", s)
        lv = np.sort(0.2 + rg.rand(k))[::-1]
        z = np.sort(rg.randn(k))[::-1].copy()
        if s % 4:
            i = s % (k - 1)
            z[i], z[i + 1] = z[i + 1], z[i]
        P.env[l] = lv
        P.env[y] = z + lv
        hp.append((P, s % 4 != 0))
    for s in range(4):          # sorted magnitudes whose difference with the weights rises once
        P = point.Point(salt=20 + s, sizes={T.sym("n"): 4 + s % 2})
        k = P.sizes[T.sym("n")]
        rg = point.rng_for("owlg", s)
        gy, gl = 0.5 + rg.rand(k - 1), 0.1 * rg.rand(k - 1)
        gy[s % (k - 1)], gl[s % (k - 1)] = 0.05, 0.5
        P.env[y] = 1 + np.append(np.cumsum(gy[::-1])[::-1], 0)
        P.env[l] = 0.2 + np.append(np.cumsum(gl[::-1])[::-1], 0)
        hp.append((P, True))
    bad, n = None, 0
    for P, more in hp:
        try:
            c = bool(P.val(L.cond))
        except Exception as e:  # noqa
            continue
        n += 1
        if c != more:
            bad = "guard is %s for y - l = %s" % (c, point.fmt(P.env[y] - P.env[l]))
    if bad:
        r.refuted("sorted-l1-iteration", name + " guard", w, bad)
    else:
        r.add("sorted-l1-iteration", name + " guard", "proved" if n else "unknown", w, "continues exactly while y - l is not sorted (%d heads)" % n)
    m = pair(I, call("merged", y, l))
    only = [P for P, more in hp if more]
    for k, got, want in (("magnitudes", by, m[0]), ("weights", bl, m[1])):
        v, d = eqv.decide(got, want, only)
        r.add("sorted-l1-iteration", name + " averaging of " + k, v, w, d)
