"""P02 operator algebra."""
import os

from .. import dtypes
from .. import ground as G
from .. import interp as IP
from .. import kernel as K
from .. import ops
from .. import par
from .. import shape as S
from .. import term as T
from ..term import num, ONE, const, NONE
from . import p01

EXPLANATION = (
    "Each combinator of cr.sparse.lop is analysed with uninterpreted operand operators (arbitrary linear maps with "
    "kernels A[i,j], B[i,j]) and symbolic sizes; its forward and adjoint closures are summarised by value numbering and "
    "compared with the algebraic specification as value numbers, else as canonical index kernels. A difference is "
    "reported only with a separating entry. Powers are proved for all exponents from the loop recurrence, and cross-checked by unrolling.")
FLOOR = 40
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py, vlib/shape.py, vlib/kernel.py"]

X, Y = "x", "y"


def same(I, got, spec, x, shape, cset=()):
    """verdict on got == spec as functions of x; spec: term or fn(idx)->monos"""
    if isinstance(spec, T.Term) and got is spec:
        return "proved", "equal value numbers"
    o = [K.index_var("o%d" % i) for i in range(len(shape))]
    kn = K.Kern({x} if x is not None else set(), I)
    try:
        E1 = kn.E(got, tuple(o))
        E2 = kn.E(spec, tuple(o)) if isinstance(spec, T.Term) else spec(tuple(o), kn)
    except K.NonLinear as e:
        return "unknown", "not linear: %s" % e
    except K.Unknown as e:
        return "unknown", str(e)
    if x is not None and T.show(x) == "__none__":
        for E in (E1, E2):
            for q in E:
                if q.x is None:
                    q.x = (x, T.ZERO)
    dom = dict(zip(o, shape))
    err = ""
    sg = S.shape_of(got)
    if sg is not None and len(sg) != len(shape):
        return "refuted", "result has %d dimensions where the algebra gives %d" % (len(sg), len(shape))
    pv = {}
    if x is not None:
        p = [K.index_var("p%d" % i) for i in range(len(S.shape_of(x)))]
        pv = {x: tuple(p)}
        dom.update(zip(p, S.shape_of(x)))
    try:
        if x is not None:
            for K.bound_pairs in (True, False):
                f, g = K.canon(E1, pv, dom), K.canon(E2, pv, dom)
                if f.d == g.d:
                    return "proved", "equal canonical kernels (%d terms)" % len(f.d)
            err = "canonical kernels differ: %s // %s" % (K.show_form(f.d, 2), K.show_form(g.d, 2))
    except (K.Unknown, K.NonLinear) as e:
        err = str(e)
    n = 0
    for env in G.timed(G.sizes(p01.size_syms(), list(cset), 60), 10):
        try:
            gap, atoms = G.map_gap(E1, E2, o, shape, env)
        except G.Undefined as e:
            err = str(e)
            continue
        n += 1
        if gap is not None:
            bad = [a for a in atoms if not p01.transparent(a)]
            txt = "at sizes {%s} output %s, input %s: code has %s, the algebra %s" % (
                ", ".join("%s=%d" % (T.show(k), v) for k, v in sorted(env.items(), key=lambda q: q[0].key)),
                gap[0], gap[1][1:] if gap[1][0] is not None else "-", p01.fmt(gap[2]), p01.fmt(gap[3]))
            if bad:
                return "unknown", "difference involves opaque %s; %s" % (T.show(bad[0], 3), txt)
            return "refuted", txt
    if n and x is None:
        return "proved", "entries agree for symbolic operand at %d sizes" % n
    return "unknown", "%s, no separating entry at %d sizes" % (err, n)


class Spec:
    """name, sizes; build(I) -> operator; fw(x), bw(y): the prescribed maps"""

    def __init__(self, label, build):
        self.label, self.build = label, build


def AB(I, m="m", n="n", p="p", nested=False):
    return ops.operand(I, "A", ops.size(m), ops.size(n))


def t_(name, v):
    return T.app(T.sym(name), "times", v)


def h_(name, v):
    return T.app(T.sym(name), "trans", v)


def real_of(name, val):
    return (T.mk("attr", T.sym(name), "real"), val)


def lop(I, name):
    return I.get("cr.sparse.lop", name)


def callm(I, obj, name, args):
    return I.call(I.getattr(obj, name), args, {})


def syntax(expr):
    """value of an expression of operator syntax over A and B"""
    import ast

    def go(I, env):
        m = I.load("cr.sparse.lop")
        sc = IP.Scope(m.scope, m, "<syntax>")
        sc.vars.update(env)
        I.fnstack.append((m, "<syntax>"))
        try:
            return I.eval(ast.parse(expr, mode="eval").body, sc)
        finally:
            I.fnstack.pop()
    return go


def perm_spec(y, perm, shape):
    """entries of z with z[perm[j]] = y[j]"""
    def f(idx, kn):
        l, H = kn.over(shape[0])
        e = K.ent(perm, (l,))
        return [q.scaled(ONE, H=tuple(H), eq=(T.sub(e, idx[0]),), bound=(l,)) for q in kn.E(y, (l,) + tuple(idx[1:]))]
    return f


def scatter_spec(y, picks, k):
    def f(idx, kn):
        l, H = kn.over(k)
        e = K.ent(picks, (l,))
        return [q.scaled(ONE, H=tuple(H), eq=(T.sub(e, idx[0]),), bound=(l,)) for q in kn.E(y, (l,) + tuple(idx[1:]))]
    return f


def app_spec(name, d, inner, n):
    """entries of op applied to the array whose entries inner gives"""
    def f(idx, kn):
        l, H = kn.over(n)
        if d == "times":
            c = T.mk("ker", T.sym(name), (idx[0], l))
            T.CTX.scalars.add(c)
        else:
            c = T.mk("ker", T.sym(name), (l, idx[0]))
            T.CTX.scalars.add(c)
            c = K.kconj(c)
        return [q.scaled(c, H=tuple(H), bound=(l,)) for q in inner((l,) + tuple(idx[1:]), kn)]
    return f


def entry_spec(fn):
    """entries given by a coefficient"""
    def f(idx, kn):
        return [K.Mono(fn(idx))]
    return f


def kerc(name, i, j, cj=False):
    c = T.mk("ker", T.sym(name), (i, j))
    T.CTX.scalars.add(c)
    return K.kconj(c) if cj else c


def specs():
    """label -> fn(I) -> (operator, m, n, forward(x), backward(y), assumption list)"""
    L = {}

    def one(label, mk_, fw, bw, shape, square=False, rank2=True, assume=()):
        L[label] = (mk_, fw, bw, shape, square, rank2, assume)
    A = T.sym("A")
    for nm, mk_ in (("neg", lambda I, A, B: I.call(lop(I, "neg"), [A], {})), ("-A", lambda I, A, B: syntax("-A")(I, {"A": A}))):
        one(nm, mk_, lambda x: T.neg(t_("A", x)), lambda y: T.neg(h_("A", y)), "mn")
    one("scale", lambda I, A, B: I.call(lop(I, "scale"), [A, ops.scalar("alpha")], {}),
        lambda x: T.mul(T.sym("alpha"), t_("A", x)), lambda y: T.mul(T.conj(T.sym("alpha")), h_("A", y)), "mn")
    for nm in ("adjoint", "hermitian"):
        one(nm, (lambda nm: lambda I, A, B: I.call(lop(I, nm), [A], {}))(nm), lambda x: h_("A", x), lambda y: t_("A", y), "nm")
    one("transpose", lambda I, A, B: I.call(lop(I, "transpose"), [A], {}), lambda x: T.conj(h_("A", T.conj(x))), lambda y: T.conj(t_("A", T.conj(y))), "nm")
    one("jit", lambda I, A, B: I.call(lop(I, "jit"), [A], {}), lambda x: t_("A", x), lambda y: h_("A", y), "mn",
        assume=("jit_safe",))
    for nm, mk_ in (("add", lambda I, A, B: I.call(lop(I, "add"), [A, B], {})), ("A + B", lambda I, A, B: syntax("A + B")(I, {"A": A, "B": B}))):
        one(nm, mk_, lambda x: T.add(t_("A", x), t_("B", x)), lambda y: T.add(h_("A", y), h_("B", y)), "mn+")
    for nm, mk_ in (("subtract", lambda I, A, B: I.call(lop(I, "subtract"), [A, B], {})), ("A - B", lambda I, A, B: syntax("A - B")(I, {"A": A, "B": B}))):
        one(nm, mk_, lambda x: T.sub(t_("A", x), t_("B", x)), lambda y: T.sub(h_("A", y), h_("B", y)), "mn+")
    for nm, mk_ in (("compose", lambda I, A, B: I.call(lop(I, "compose"), [A, B], {})), ("A @ B", lambda I, A, B: syntax("A @ B")(I, {"A": A, "B": B}))):
        one(nm, mk_, lambda x: t_("A", t_("B", x)), lambda y: h_("B", h_("A", y)), "mn*")
    one("hcat", lambda I, A, B: I.call(lop(I, "hcat"), [A, B], {}), "hcat", "hcat", "m|")
    one("gram", lambda I, A, B: I.call(lop(I, "gram"), [A], {}), lambda x: h_("A", t_("A", x)), lambda y: h_("A", t_("A", y)), "nn")
    one("frame", lambda I, A, B: I.call(lop(I, "frame"), [A], {}), lambda x: t_("A", h_("A", x)), lambda y: t_("A", h_("A", y)), "mm")
    return L


def whole(v, dim):
    return v


def job(j):
    kind, label, rank = j[:3]
    ops.reset()
    I = IP.Interp()
    I.int_syms = K.INTS
    out = list(globals()["do_" + kind](I, label, rank))
    kd = dtypes.Kinds(I, {T.sym("x"), T.sym("y"), T.sym("X"), T.sym("Y")})
    con = "%s(%s) rank=%s" % (kind, label, rank)
    for what, w in kd.findings()[:1]:
        out.append(("refuted", "element-kind", con, (w[0], w[2]), "%s in %s: the imaginary part is dropped" % (what, w[1])))
    if kd.n and not kd.findings():
        out.append(("unknown" if kd.open else "proved", "element-kind", con, ("src/cr/sparse/_src/lop/lop.py", 0), "%d stores and casts keep complex data" % (kd.n - kd.open)))
    return out


def report(rows, con, where, rule):
    """fold the (verdict, detail) of a construct's branch cases"""
    order = {"proved": 0, "unknown": 1, "refuted": 2}
    v = max(rows, key=lambda r: order[r[0]])
    return (v[0], rule, con, where, v[1] + "; %d branch cases" % len(rows))


def compare(I, got, spec, x, shape, assume=()):
    rows = []
    given = {T.mk("attr", T.sym(a), f) for a in ("A", "B") for f in assume}
    g = I.to_term(got)
    for f in given:
        g = T.assume(g, f, True)
    for asg, (u,) in T.cases(g):
        saved = list(K.FACTS.extra)
        savedr = set(K.REALS)
        K.FACTS.extra += p01.facts(asg)
        real = set()
        bad = False
        for c, v in asg:
            if c.op == "attr" and c.args[1] == "real" and v:
                K.REALS.add(c.args[0])
                real.add(c.args[0])
            if c.op == "attr" and c.args[1] != "real":
                pass
        try:
            rows.append(same(I, u, spec, x, shape, [c for c in p01.conds(asg) if c.op not in ("attr", "not")]))
            if asg:
                rows[-1] = (rows[-1][0], rows[-1][1] + " [branch %s]" % ", ".join(("" if b else "not ") + T.show(c, 3) for c, b in asg))
        finally:
            K.FACTS.extra = saved
            K.REALS.clear()
            K.REALS.update(savedr)
    return rows


def do_alg(I, label, rank):
    mk_, fw, bw, shape, square, rank2, assume = specs()[label]
    m, n, p = ops.size("m"), ops.size("n"), ops.size("p")
    A = ops.operand(I, "A", m, n)
    B = None
    if shape == "mn+":
        B = ops.operand(I, "B", m, n)
        dims = (m, n)
    elif shape == "mn*":
        B = ops.operand(I, "B", n, p)
        dims = (m, p)
    elif shape == "m|":
        B = ops.operand(I, "B", m, p)
        dims = (m, T.add(n, p))
    else:
        dims = {"mn": (m, n), "nm": (n, m), "nn": (n, n), "mm": (m, m)}[shape]
    op = mk_(I, A, B)
    fn = lop(I, label) if " " not in label and label[0] != "-" else lop(I, {"-A": "neg", "A + B": "add", "A - B": "subtract", "A @ B": "compose"}[label])
    where = p01.where_of(fn)
    tail = (ops.size("k"),) if rank == 2 else ()
    x, y = ops.array("x", dims[1], *tail), ops.array("y", dims[0], *tail)
    out = []
    if label == "hcat":
        fs = lambda v: (lambda idx, kn: app_spec("A", "times", lambda i2, k2: k2.E(v, i2), n)(idx, kn) +
                        app_spec("B", "times", lambda i2, k2: k2.E(v, (T.add(i2[0], n),) + tuple(i2[1:])), p)(idx, kn))

        def bs(v):
            def f(idx, kn):
                lo = app_spec("A", "trans", lambda i2, k2: k2.E(v, i2), m)(idx, kn)
                hi = app_spec("B", "trans", lambda i2, k2: k2.E(v, i2), m)((T.sub(idx[0], n),) + tuple(idx[1:]), kn)
                return [q.scaled(ONE, H=(T.sub(T.sub(n, ONE), idx[0]),)) for q in lo] + \
                    [q.scaled(ONE, H=(T.sub(idx[0], n),)) for q in hi]
            return f
        fw, bw = fs, bs
    for d, v, spec, osh in (("times", x, fw(x), (dims[0],) + tail), ("trans", y, bw(y), (dims[1],) + tail)):
        con = "lop.%s %s rank=%d" % (label, d, rank)
        got = I.call(I.getattr(op, d), [v], {})
        rows = compare(I, got, spec, v, osh, assume)
        out.append(report(rows, con, where, "algebra-map"))
    from . import p03
    for k, (got, want) in enumerate(zip(p01.opshape(I, op), dims)):
        sv = p03.shape_verdict(got, (want,))
        out.append((sv[0], "algebra-shape", "lop.%s shape[%d]" % (label, k), where, sv[1]))
    return out


def do_partial(I, label, rank):
    m, n, k = ops.size("m"), ops.size("n"), ops.size("k")
    K.FACTS.extra.append(T.sub(m, k))
    A = ops.operand(I, "A", m, n)
    picks = ops.array("picks", k)
    G.INDEX.clear()
    G.INDEX[picks] = m
    K.INTS.add(picks)
    args = [A, picks]
    perm = None
    if label == "perm":
        perm = ops.array("perm", n)
        G.INDEX[perm] = n
        args.append(perm)
    fn = lop(I, "partial_op")
    op = I.call(fn, args, {})
    where = p01.where_of(fn)
    tail = (ops.size("e"),) if rank == 2 else ()
    x, y = ops.array("x", n, *tail), ops.array("y", k, *tail)
    out = []
    xin = (lambda i2, k2: k2.E(x, i2)) if perm is None else (lambda i2, k2: k2.E(x, (K.ent(perm, (i2[0],)),) + tuple(i2[1:])))
    fwd = app_spec("A", "times", xin, n)
    fw = lambda idx, kn: fwd((K.ent(picks, (idx[0],)),) + tuple(idx[1:]), kn)
    back = app_spec("A", "trans", scatter_spec(y, picks, k), m)
    if perm is None:
        bw = back
    else:
        def bw(idx, kn):
            l, H = kn.over(n)
            return [q.scaled(ONE, H=tuple(H), eq=(T.sub(K.ent(perm, (l,)), idx[0]),), bound=(l,)) for q in back((l,) + tuple(idx[1:]), kn)]
    for d, v, spec, osh in (("times", x, fw, (k,) + tail), ("trans", y, bw, (n,) + tail)):
        got = I.call(I.getattr(op, d), [v], {})
        out.append(report(compare(I, got, spec, v, osh), "lop.partial_op(%s) %s rank=%d" % (label, d, rank), where, "algebra-map"))
    return out


def do_power(I, label, rank):
    """A^p: unrolled exponents 0..4, then the loop recurrence for every exponent"""
    n = ops.size("n")
    tail = (ops.size("k"),) if rank == 2 else ()
    A = ops.operand(I, "A", n, n)
    x = ops.array("x", n, *tail)
    out = []
    fn = lop(I, "power")
    where = p01.where_of(fn)
    if label != "loop":
        p = int(label.split("=")[1])
        I.unroll = 8
        ops_ = [("lop.power", I.call(fn, [A, num(p)], {})), ("A ** p", syntax("A ** p")(I, {"A": A, "p": num(p)}))]
        for nm, op in ops_:
            for d in ("times", "trans"):
                got = I.to_term(I.call(I.getattr(op, d), [x], {}))
                spec = x
                for _ in range(p):
                    spec = T.app(T.sym("A"), d, spec)
                con = "%s p=%d %s rank=%d" % (nm, p, d, rank)
                ver, det = powers(got, spec, d)
                out.append((ver, "power-unrolled", con, where, det))
        return out
    p = ops.size("p")
    op = I.call(fn, [A, p], {})
    for d in ("times", "trans"):
        nl = len(I.loops)
        got = I.to_term(I.call(I.getattr(op, d), [x], {}))
        ver, det = recurrence(I, I.loops[nl:], got, x, d, p)
        out.append((ver, "power-recurrence", "lop.power all exponents %s rank=%d" % (d, rank), where, det))
    return out


def powers(got, spec, d):
    if got is spec:
        return "proved", "equal value numbers"
    k = 0
    t = got
    while t.op == "app" and t.args[0] is T.sym("A"):
        k += 1
        t = t.args[2]
    if t is T.sym("x"):
        return "refuted", "applies %s where the power is %s" % (T.show(got, 9), T.show(spec, 9))
    return "unknown", T.show(got, 9)


def recurrence(I, loops, got, x, d, p):
    for rec in loops:
        hd, ini, bod = dict(K.flat(rec.head)), dict(K.flat(rec.init)), dict(K.flat(rec.body)) if rec.body is not None else {}
        for path, h in hd.items():
            if h is not got:
                continue
            if ini.get(path) is not x or bod.get(path) is not T.app(T.sym("A"), d, h):
                return "unknown", "recurrence %s -> %s" % (T.show(ini.get(path)), T.show(bod.get(path)))
            # trip count
            rg = rec.extra.get("range")
            if rec.kind in ("lax.fori_loop", "for") and rg is not None:
                lo, hi = (T.ZERO, rg.args[0]) if len(rg.args) == 1 else rg.args[:2]
                n = T.sub(hi, lo)
                return ("proved", "x <- A x, %s trips" % T.show(n)) if n is p else ("refuted", "loop runs %s times, exponent %s" % (T.show(n), T.show(p)))
            for q, c in hd.items():
                if q == path or not isinstance(ini.get(q), T.Term) or not T.is_num(ini[q]):
                    continue
                step = T.sub(bod[q], c)
                if step is T.ONE and rec.cond is not None:
                    if rec.cond is T.cmp("lt", c, T.add(p, ini[q])):
                        return "proved", "x <- A x while counter below the exponent"
                    for off in (-1, 1, 2):
                        if rec.cond is T.cmp("lt", c, T.add(T.add(p, ini[q]), num(off))):
                            return "refuted", "loop runs exponent%+d times" % off
    return "unknown", "no recognised recurrence: %s" % T.show(got, 5)


def do_block(I, label, rank):
    """block diagonal of three arbitrary operators along an axis"""
    axis, nb = (int(v) for v in label.split("/"))
    ops_ = [ops.operand(I, "B%d" % i, ops.size("m%d" % i), ops.size("n%d" % i)) for i in range(nb)]
    fn = lop(I, "block_diag")
    op = I.call(fn, [IP.PyTuple(ops_, "list")], {"axis": num(axis)})
    where = p01.where_of(fn)
    ms = [T.sym("m%d" % i) for i in range(nb)]
    ns = [T.sym("n%d" % i) for i in range(nb)]
    xs = ops.stack_shape((T.add(*ns),), rank, axis)
    ys = ops.stack_shape((T.add(*ms),), rank, axis)
    x, y = ops.array("x", *xs), ops.array("y", *ys)

    def spec(v, d, outd, ind):
        def f(idx, kn):
            r = []
            o0, i0 = T.ZERO, T.ZERO
            for i in range(nb):
                a = T.sub(idx[axis], o0)
                l, H = kn.over(ind[i])
                c = kerc("B%d" % i, a, l) if d == "times" else kerc("B%d" % i, l, a, True)
                src = list(idx)
                src[axis] = T.add(l, i0)
                for q in kn.E(v, tuple(src)):
                    r.append(q.scaled(c, H=tuple(H) + (a, T.sub(T.sub(outd[i], ONE), a)), bound=(l,)))
                o0, i0 = T.add(o0, outd[i]), T.add(i0, ind[i])
            return r
        return f
    out = []
    for d, v, sp, osh in (("times", x, spec(x, "times", ms, ns), ys), ("trans", y, spec(y, "trans", ns, ms), xs)):
        got = I.call(I.getattr(op, d), [v], {})
        out.append(report(compare(I, got, sp, v, osh), "lop.block_diag %d blocks %s rank=%d axis=%d" % (nb, d, rank, axis), where, "algebra-map"))
    return out


def do_parts(I, label, rank):
    """columns, matrix forms and batched application"""
    m, n, k = ops.size("m"), ops.size("n"), ops.size("k")
    out = []
    if label in ("to_matrix", "to_adjoint_matrix", "to_complex_matrix"):
        fn = lop(I, label)
        A = ops.operand(I, "A", m, n, linear=T.TRUE)
        got = I.call(fn, [A], {})
        if label == "to_adjoint_matrix":
            sp, osh = entry_spec(lambda idx: kerc("A", idx[1], idx[0], True)), (n, m)
        else:
            sp, osh = entry_spec(lambda idx: kerc("A", idx[0], idx[1])), (m, n)
        out.append(report(compare_const(I, got, sp, osh), "lop.%s" % label, p01.where_of(fn), "matrix-form"))
    elif label in ("column", "columns"):
        fn = lop(I, label)
        f0 = fn.func if isinstance(fn, IP.Jit) else fn
        A = ops.operand(I, "A", m, n)
        cls = I.get("cr.sparse.lop", "Operator")
        if label == "column":
            i = ops.size("i", 0)
            K.FACTS.extra.append(T.sub(T.sub(n, ONE), i))
            forms = [("lop.column", lambda: I.call(fn, [A, i], {})), ("A.column", lambda: callm(I, A, "column", [i]))]
            sp, osh = entry_spec(lambda idx: kerc("A", idx[0], i)), (m,)
        else:
            J = ops.array("J", k)
            K.FACTS.extra.append(T.sub(n, k))
            G.INDEX.clear()
            G.INDEX[J] = n
            forms = [("lop.columns", lambda: I.call(fn, [A, J], {})), ("A.columns", lambda: callm(I, A, "columns", [J]))]
            sp, osh = entry_spec(lambda idx: kerc("A", idx[0], K.ent(J, (idx[1],)))), (m, k)
        for nm, g in forms:
            out.append(report(compare_const(I, g(), sp, osh), nm, p01.where_of(f0), "matrix-form"))
    elif label in ("times_2d", "trans_2d"):
        A = ops.operand(I, "A", m, n)
        d = label.split("_")[0]
        x = ops.array("x", n if d == "times" else m, k)
        got = callm(I, A, label, [x])
        sp = T.app(T.sym("A"), d, x)
        fn = I.get("cr.sparse.lop", "Operator").lookup(label)
        out.append(report(compare(I, got, sp, x, ((m if d == "times" else n), k)), "A.%s" % label, p01.where_of(fn), "matrix-form"))
    elif label == "sizes":
        cls = I.get("cr.sparse.lop", "Operator")
        a, b, c = ops.size("a0"), ops.size("a1"), ops.size("a2")
        for nm, A, mi, ni in (("1d", ops.operand(I, "A", m, n), (m,), (n,)),
                              ("nd", ops.operand(I, "C", (a, b, c), (m, n)), (a, b, c), (m, n))):
            for side, dims in (("input", ni), ("output", mi)):
                want = {"ndim": num(len(dims)), "size": T.mul(*dims) if len(dims) > 1 else dims[0], "shape": dims}
                for q, w in want.items():
                    got = I.to_term(I.getattr(A, "%s_%s" % (side, q)))
                    w2 = IP.tup(list(w)) if isinstance(w, tuple) else w
                    fn = cls.lookup("%s_%s" % (side, q))
                    ok = got is w2
                    decided = not any(s.op not in ("num", "sym", "sum", "prod", "tuple", "const") for s in T.subterms(got))
                    out.append(("proved" if ok else "refuted" if decided else "unknown", "declared-size", "A.%s_%s %s" % (side, q, nm),
                                p01.where_of(getattr(fn, "func", fn)), "reports %s for dimensions %s" % (T.show(got), T.show(w2))))
    elif label == "to_matrix_nd":
        a, b = ops.size("a0"), ops.size("a1")
        A = ops.operand(I, "A", (a, b), (m, n), linear=T.TRUE)
        for nm in ("to_matrix", "to_adjoint_matrix"):
            fn = lop(I, nm)
            got = I.call(fn, [A], {})

            def unflat(kn, i, d0, d1):
                q, H = kn.over(d0)
                r = T.sub(i, T.mul(q, d1))
                return (q, r), tuple(H) + (r, T.sub(T.sub(d1, ONE), r)), (q,)

            def sp(idx, kn):
                u, v = (idx[0], idx[1]) if nm == "to_matrix" else (idx[1], idx[0])
                (o0, o1), h1, b1 = unflat(kn, u, a, b)
                (i0, i1), h2, b2 = unflat(kn, v, m, n)
                c = T.mk("ker", T.sym("A"), (o0, o1, i0, i1))
                T.CTX.scalars.add(c)
                return [K.Mono(c if nm == "to_matrix" else K.kconj(c), H=h1 + h2, bound=b1 + b2)]
            osh = (T.mul(a, b), T.mul(m, n))
            osh = osh if nm == "to_matrix" else osh[::-1]
            out.append(report(compare_const(I, got, sp, osh), "lop.%s multi-dimensional" % nm, p01.where_of(fn), "matrix-form"))
    return out


def compare_const(I, got, spec, shape):
    """entries without a data vector: agreement of kernels entry by entry"""
    z = ops.array("__none__", ONE)
    rows = []
    for asg, (u,) in T.cases(I.to_term(got)):
        r = same(I, u, spec, z, shape, [c for c in p01.conds(asg) if c.op not in ("attr", "not")])
        rows.append(r)
    return rows


def jobs():
    js = []
    for l in specs():
        for rk in (1, 2):
            js.append(("alg", l, rk))
    for l in ("plain", "perm"):
        for rk in (1, 2):
            js.append(("partial", l, rk))
    for l in ("p=0", "p=1", "p=2", "p=3", "p=4", "loop"):
        for rk in (1, 2):
            js.append(("power", l, rk))
    for ax, rk in ((0, 1), (0, 2), (1, 2)):
        js += [("block", "%d/%d" % (ax, nb), rk) for nb in (2, 3)]
    for l in ("to_matrix", "to_adjoint_matrix", "to_complex_matrix", "column", "columns", "times_2d", "trans_2d", "sizes", "to_matrix_nd"):
        js.append(("parts", l, 1))
    return js


def run(r):
    js = jobs()
    if os.environ.get("VP_ONLY"):
        js = [j for j in js if j[1] in os.environ["VP_ONLY"].split(",")]
    par.fold(r, par.pmap(job, js, timeout=60), js, "algebra-map", lambda j: "lop.%s %s rank=%s" % j)
    r.assumptions.append("operands are linear maps; picked indices are distinct and perm is a permutation")
