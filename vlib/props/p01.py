"""P01 adjoint consistency of every operator constructor."""
import os

from .. import dtypes
from .. import ground as G
from .. import interp as IP
from .. import kernel as K
from .. import loader
from .. import ops
from .. import par
from .. import shape as S
from .. import term as T

EXPLANATION = (
    "Each public constructor of cr.sparse.lop is analysed with symbolic sizes, axes and data: the value-numbering "
    "interpreter summarises its times and trans closures as index kernels (coefficient, index map, half-space guards), "
    "case-split on every branch condition; the obligation is that the canonical kernel of trans is the conjugate "
    "transpose of that of times, for all sizes at once. A difference is reported only with a separating entry of the two summaries.")
FLOOR = 60
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py, vlib/shape.py, vlib/kernel.py",
           "orthogonal wavelet filter bank: idwt with reconstruction filters is the adjoint of dwt with decomposition filters (periodization)",
           "nimble fast Walsh-Hadamard transform is a symmetric real map"]

SAFE_OPAQUE = ("call",)


class Mismatch(Exception):
    pass


def facts(asg):
    out = []
    for c, val in asg:
        c = c if val else T.not_(c)
        if c.op == "cmp" and c.args[0] in ("lt", "le"):
            e = T.neg(c.args[1])
            out.append(T.sub(e, T.ONE) if c.args[0] == "lt" else e)
        elif c.op == "cmp" and c.args[0] == "eq":
            out += [c.args[1], T.neg(c.args[1])]
    return out


def conds(asg):
    return [c if v else T.not_(c) for c, v in asg]


def build(cs, rank, axis):
    ops.reset()
    I = IP.Interp()
    fn = I.get("cr.sparse.lop", cs.name)
    a, kw = cs.build(I, axis)
    op = I.call(fn, a, kw)
    return I, fn, op


def opshape(I, op):
    sh = op.fields["shape"]
    sh = I.to_term(sh) if not isinstance(sh, IP.PyTuple) else sh
    return [ops.dims_of(v) for v in (sh.items if isinstance(sh, IP.PyTuple) else sh.args[0])]


def size_syms(*shapes):
    out = set()
    for s in list(K.FACTS.lb):
        out.add(s)
    return out


def cj_merge(form):
    """real data: x and conj x coincide"""
    f = K.Form()
    for k, c in form.d.items():
        f.put(k[:-1] + (False,), c)
    return f


def decide(E1, o, ys, x, E2, p, xs, y, cset, real):
    """-> (verdict, detail)"""
    dom = {**dict(zip(o, ys)), **dict(zip(p, xs))}
    err = None
    d = None
    try:
        for K.bound_pairs in (False, True):
            f = K.canon(E1, {x: tuple(p)}, dom)
            g = K.canon(E2, {y: tuple(o)}, dom, swap=True)
            if real:
                f, g = cj_merge(f), cj_merge(g)
            d = {}
            for k, c in f.d.items():
                d[k] = c
            for k, c in g.d.items():
                d[k] = T.sub(d.get(k, T.ZERO), c)
            d = {k: c for k, c in d.items() if c is not T.ZERO}
            if not d:
                return "proved", "%d kernel terms" % len(f.d)
    except (K.Unknown, K.NonLinear) as e:
        err = str(e)
    # look for a separating point
    n = 0
    for env in G.timed(G.sizes(size_syms(), cset, 60), 10):
        try:
            gap, atoms = G.adjoint_gap(E1, o, ys, x, E2, p, xs, y, env, real)
        except G.Undefined as e:
            err = str(e)
            continue
        n += 1
        if gap is not None:
            bad = [a for a in atoms if not transparent(a)]
            txt = "at sizes {%s} entry %s: times has %s, adjoint of trans has %s" % (
                ", ".join("%s=%d" % (T.show(k), v) for k, v in sorted(env.items(), key=lambda q: q[0].key)),
                gap[0], fmt(gap[1]), fmt(gap[2]))
            if bad:
                return "unknown", "difference involves opaque %s; %s" % (T.show(bad[0], 3), txt)
            if not real and all(not G.adjoint_gap(E1, o, ys, x, E2, p, xs, y, e2, real, True)[0] for e2 in G.sizes(size_syms(), cset, 4)):
                # trans is the transpose, not the adjoint: a narrower finding
                return "refuted-unconjugated", txt
            return "refuted", txt
    return "unknown", "canonical kernels differ (%s), no separating entry at %d sizes" % (
        err or K.show_form(d or {}, 2), n)


def fmt(v):
    if isinstance(v, complex):
        return "%.4g%+.4gj" % (v.real, v.imag)
    return str(v)


def transparent(a):
    """atoms whose value the analysis treats as free data"""
    if a.op in ("sym", "symker", "uninit"):
        return True
    if a.op == "call" and a.args[0].startswith("random."):
        return True
    if a.op in ("sum", "prod"):
        return all(transparent(s) for s in T.subterms(a) if s.op not in ("num", "sum", "prod", "sym"))
    if a.op in ("pow", "sign", "log", "ent", "opfield", "field"):
        return True
    return False


def job(j):
    name, label, rank, axis = j
    cs = [c for c in ops.cases() if c.name == name and c.label == label][0]
    con = "lop.%s%s rank=%s axis=%s" % (name, "(" + label + ")" if label else "", rank, axis)
    out = []
    I, fn, op = build(cs, rank, axis)
    where = where_of(fn)
    m, n = opshape(I, op)
    xs, ys = ops.stack_shape(n, rank, axis), ops.stack_shape(m, rank, axis)
    x, y = ops.array("x", *xs), ops.array("y", *ys)
    rule = "adjoint-kernel"
    tx = I.to_term(I.call(op.fields["times"], [x], {}))
    ty = I.to_term(I.call(op.fields["trans"], [y], {}))
    if not cs.real:
        kd = dtypes.Kinds(I, {x, y})
        bad = kd.findings()
        if bad:
            what, w = bad[0]
            out.append(("refuted", "element-kind", con, (w[0], w[2]), "%s in %s: the imaginary part is dropped, the map is not linear" % (what, w[1])))
        elif kd.n:
            out.append(("unknown" if kd.open else "proved", "element-kind", con, where, "%d stores and casts keep complex data, %d undecided" % (kd.n - kd.open, kd.open)))
    k = 0
    worst = None
    work = [(a_, p_, False) for a_, p_ in T.cases(tx, ty)]
    while work:
        asg, (u, v), opened = work.pop(0)
        saved = list(K.FACTS.extra)
        K.FACTS.extra += facts(asg)
        cset = conds(asg)
        k += 1
        try:
            o = [K.index_var("o%d" % i) for i in range(len(ys))]
            p = [K.index_var("p%d" % i) for i in range(len(xs))]
            kn = K.Kern({x, y}, I)
            try:
                from . import p03
                for t_, w_ in ((u, ys), (v, xs)):
                    sv = p03.shape_verdict(S.shape_of(t_), w_, cset)
                    if sv[0] == "refuted" and (not cset or G.sizes(size_syms(), cset, 1)) and not (name == "dot" and label == "array"):
                        raise Mismatch(sv[1])
                E1 = kn.E(u, tuple(o))
                E2 = kn.E(v, tuple(p))
                ver, det = decide(E1, o, ys, x, E2, p, xs, y, cset, cs.real)
            except K.NonLinear as e:
                ver, det = "refuted", "map is not linear: %s" % e
                if not G.sizes(size_syms(), cset, 1):
                    ver, det = "unknown", det + " (no size satisfies the branch conditions)"
            except Mismatch as e:
                ver, det = "refuted", "no inner product: %s" % e
            except K.Unknown as e:
                ver, det = "unknown", str(e)
                u2, v2 = T.open_minmax(u), T.open_minmax(v)
                if not opened and (u2 is not u or v2 is not v):
                    more = [(asg + a_, p_, True) for a_, p_ in T.cases(u2, v2)]
                    if len(more) > 1:
                        work += more
                        continue
        finally:
            K.FACTS.extra = saved
        if asg:
            det += " [branch %s]" % ", ".join(("" if b else "not ") + T.show(c, 3) for c, b in asg)
        rank_ = {"proved": 0, "unknown": 1, "refuted-unconjugated": 2, "refuted": 3}
        if worst is None or rank_[ver] > rank_[worst[0]]:
            worst = (ver, det)
    if worst[0] == "refuted-unconjugated":
        rule += "-unconjugated"
        worst = ("refuted", worst[1])
    out.append((worst[0], rule, con, where, worst[1] + "; %d branch cases" % k))
    return out


def where_of(fn):
    node = getattr(fn, "node", None)
    mod = getattr(fn, "module", None)
    return (loader.relpath(getattr(mod, "path", "") or ""), getattr(node, "lineno", 0))


def jobs():
    return [(c.name, c.label, r, a) for c in ops.cases() for r, a in c.ranks]


def run(r):
    js = jobs()
    if os.environ.get("VP_ONLY"):
        js = [j for j in js if j[0] in os.environ["VP_ONLY"].split(",")]
    par.fold(r, par.pmap(job, js, timeout=60), js, "adjoint-kernel", lambda j: "lop.%s(%s) rank=%s axis=%s" % j)
    r.stats["constructors"] = sorted({j[0] for j in js})
    r.assumptions.append("sizes at least the documented minimum; convolution offsets inside the filter; index sets within range")
