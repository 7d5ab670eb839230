"""P03 declared shapes and traits."""
import os

from .. import ground as G
from .. import interp as IP
from .. import kernel as K
from .. import ops
from .. import par
from .. import shape as S
from .. import term as T
from ..term import num, ONE
from . import p01, p02

EXPLANATION = (
    "Shape inference over the value summaries of times and trans of every constructor and combinator, compared with the "
    "declared shape for symbolic sizes; boolean implication from each declared trait of a combined operator to the same "
    "trait of every operand; conjugation invariance of the kernel of every operator declared real; column-wise action of "
    "every operator declared matrix-capable.")
FLOOR = 100
TRUSTED = ["shape table of numpy/jax primitives in vlib/shape.py", "kernel table in vlib/kernel.py"]

TRAITS = ("linear", "jit_safe", "matrix_safe", "real")


def shape_verdict(got, want, cset=()):
    """compare dimension tuples for all sizes"""
    if got is None:
        return "unknown", "shape not inferred"
    if len(got) != len(want):
        return "refuted", "result has shape %s, declared %s" % (showd(got), showd(want))
    if all(a is b for a, b in zip(got, want)):
        return "proved", showd(want)
    n = 0
    diff = [(a, b) for a, b in zip(got, want) if a is not b]
    for env in G.sizes(p01.size_syms(), list(cset), 12):
        p = G.Point(env)
        for a, b in diff:
            try:
                u, v = p.val(a), p.val(b)
            except G.Undefined:
                continue
            if p.atoms:
                return "unknown", "size %s / %s not resolved" % (T.show(a), T.show(b))
            n += 1
            if abs(u - v) > 1e-9:
                return "refuted", "at sizes {%s} result has dimension %g, declared %g (%s vs %s)" % (
                    ", ".join("%s=%d" % (T.show(k), x) for k, x in sorted(env.items(), key=lambda q: q[0].key)), u.real, v.real,
                    showd(got), showd(want))
    if diff and n and all(K.FACTS.nonneg(T.sub(a, b)) and K.FACTS.nonneg(T.sub(b, a)) for a, b in diff):
        return "proved", showd(want)
    return "unknown", "dimensions %s vs %s not separated at %d points" % (showd(got), showd(want), n)


def showd(d):
    return "(" + ", ".join(T.show(x, 4) for x in d) + ")"


def realness(t):
    """symbols that must be real for the declared-real flag to hold; None when
    the flag cannot be read"""
    if t is T.TRUE:
        return True, set()
    if t is T.FALSE:
        return False, set()
    return None, set()


def under(flag, val):
    """assume a real trait: atoms isrealobj(expr) -> data of expr real"""
    syms = set()
    for asg, (f,) in T.cases(T.ite(flag, ONE, T.ZERO), limit=6):
        if f is not ONE:
            continue
        ok = True
        for c, v in asg:
            if c.op == "call" and c.args[0] == "np.isrealobj" and v:
                syms |= {s for s in T.subterms(c.args[1][0]) if s.op == "sym"}
            elif c.op == "attr" and c.args[1] == "real" and v:
                syms.add(c.args[0])
            elif c.op == "call" and c.args[0] == "np.iscomplexobj" and not v:
                syms |= {s for s in T.subterms(c.args[1][0]) if s.op == "sym"}
            elif v:
                ok = False
        return syms if ok else None
    return None


def conj_invariant(I, t, x, shape, cset):
    """kernel of a real operator: entries real"""
    o = [K.index_var("o%d" % i) for i in range(len(shape))]
    kn = K.Kern({x}, I)
    try:
        E = kn.E(t, tuple(o))
    except (K.Unknown, K.NonLinear) as e:
        return "unknown", str(e)
    p = [K.index_var("p%d" % i) for i in range(len(S.shape_of(x)))]
    dom = {**dict(zip(o, shape)), **dict(zip(p, S.shape_of(x)))}
    Ec = [K.Mono(K.kconj(q.coef), q.H, q.eq, q.x, q.cj, q.bound) for q in E]
    err = ""
    try:
        for K.bound_pairs in (False, True):
            f, g = p01.cj_merge(K.canon(E, {x: tuple(p)}, dom)), p01.cj_merge(K.canon(Ec, {x: tuple(p)}, dom))
            if f.d == g.d:
                return "proved", "real kernel (%d terms)" % len(f.d)
        err = "not syntactically real"
    except (K.Unknown, K.NonLinear) as e:
        err = str(e)
    for env in G.sizes(p01.size_syms(), list(cset)):
        pt = G.Point(env)
        for oi in G.box(shape, pt):
            e = dict(env)
            e.update(zip(o, oi))
            atoms = set()
            try:
                d = G.entries(E, e, "", atoms)
            except G.Undefined as ex:
                err = str(ex)
                break
            r = {}
            for k, v in d.items():
                kk = k if k[0] is None else k[:-1]
                r[kk] = r.get(kk, 0j) + v
            for k, v in r.items():
                if abs(v.imag) > 1e-7 * (1 + abs(v)):
                    bad = [a for a in atoms if not p01.transparent(a)]
                    txt = "declared real, but at sizes {%s} entry %s of its matrix is %s" % (
                        ", ".join("%s=%d" % (T.show(q), w) for q, w in sorted(env.items(), key=lambda q: q[0].key)), (oi,) + tuple(k[1:]), p01.fmt(v))
                    return ("unknown" if bad else "refuted"), txt
    return "unknown", err


def job(j):
    kind = j[0]
    return globals()["do_" + kind](*j[1:])


def rows_fold(rows, rule, con, where):
    order = {"proved": 0, "unknown": 1, "refuted": 2}
    v = max(rows, key=lambda r: order[r[0]])
    return (v[0], rule, con, where, v[1])


def do_ctor(name, label, rank, axis):
    cs = [c for c in ops.cases() if c.name == name and c.label == label][0]
    con = "lop.%s%s rank=%s axis=%s" % (name, "(" + label + ")" if label else "", rank, axis)
    I, fn, op = p01.build(cs, rank, axis)
    I.int_syms = K.INTS
    where = p01.where_of(fn)
    m, n = p01.opshape(I, op)
    xs, ys = ops.stack_shape(n, rank, axis), ops.stack_shape(m, rank, axis)
    x, y = ops.array("x", *xs), ops.array("y", *ys)
    out = []
    flag = op.fields["real"]
    flag = I.to_term(flag)
    for d, v, want in (("times", x, ys), ("trans", y, xs)):
        t = I.to_term(I.call(op.fields[d], [v], {}))
        rows, real = [], []
        for asg, (u,) in T.cases(t):
            saved, savedr = list(K.FACTS.extra), set(K.REALS)
            K.FACTS.extra += p01.facts(asg)
            cset = p01.conds(asg)
            try:
                if cset and not G.sizes(p01.size_syms(), cset, 1):
                    continue
                if (name, label, d) != ("dot", "array", "trans"):
                    rows.append(shape_verdict(S.shape_of(u), want, cset))
                if rank in (1, "shape") and flag is not T.FALSE and not (name == "dwt2D" and "level=1" not in label):
                    syms = under(flag, True)
                    if syms is None:
                        real.append(("unknown", "real trait %s not resolved" % T.show(flag, 4)))
                    else:
                        K.REALS.update(syms)
                        T.CTX.reals.update(syms)
                        T._realmemo.clear()
                        real.append(conj_invariant(I, u, v, want, cset))
            finally:
                K.FACTS.extra = saved
                for s in K.REALS - savedr:
                    T.CTX.reals.discard(s)
                    T._realmemo.clear()
                K.REALS.clear()
                K.REALS.update(savedr)
        if rows:
            out.append(rows_fold(rows, "declared-shape", con + " " + d, where))
        if real:
            out.append(rows_fold(real, "declared-real", con + " " + d, where))
    return out


def do_matrix(name, label):
    """declared matrix-capable: acts on every column separately"""
    cs = [c for c in ops.cases() if c.name == name and c.label == label][0]
    con = "lop.%s%s" % (name, "(" + label + ")" if label else "")
    I, fn, op = p01.build(cs, 2, 0)
    where = p01.where_of(fn)
    fl = I.to_term(op.fields["matrix_safe"])
    if fl is T.FALSE:
        return [("proved", "matrix-columns", con, where, "declared not matrix-capable")]
    m, n = p01.opshape(I, op)
    if len(m) != 1 or len(n) != 1:
        return []
    k = ops.size("e0")
    out = []
    for d, a, b in (("times", n[0], m[0]), ("trans", m[0], n[0])):
        X, v = ops.array("X", a, k), ops.array("v", a)
        t1 = I.to_term(I.call(op.fields[d], [v], {}))
        t2 = I.to_term(I.call(op.fields[d], [X], {}))
        rows = []
        for asg, (u, w) in T.cases(t2, t1):
            saved = list(K.FACTS.extra)
            K.FACTS.extra += p01.facts(asg)
            cset = p01.conds(asg)
            try:
                if cset and not G.sizes(p01.size_syms(), cset, 1):
                    continue
                s2 = S.shape_of(u)
                if s2 is not None:
                    sv = shape_verdict(s2, (b, k), cset)
                    if sv[0] == "refuted":
                        rows.append(sv)
                        continue

                def spec(idx, kn, w=w):
                    kv = K.Kern({v}, I)
                    r = []
                    for q in kv.E(w, (idx[0],)):
                        r.append(K.Mono(q.coef, q.H, q.eq, None if q.x is None else (X, q.x[1], idx[1]), q.cj, q.bound))
                    return r
                rows.append(p02.same(I, u, spec, X, (b, k), cset))
            finally:
                K.FACTS.extra = saved
        out.append(rows_fold(rows, "matrix-columns", con + " " + d, where))
    return out


def do_trait(label):
    """traits of combined operators"""
    ops.reset()
    I = IP.Interp()
    I.int_syms = K.INTS
    out = []
    n = ops.size("n")
    square = label == "power"
    m = n if square else ops.size("m")
    A = ops.operand(I, "A", m, n)
    B = ops.operand(I, "B", m, n)
    names = ["A"]
    data = []
    if label in p02.specs():
        mk_, _, _, shp = p02.specs()[label][:4]
        if shp == "mn*":
            B = ops.operand(I, "B", n, ops.size("p"))
        elif shp == "m|":
            B = ops.operand(I, "B", m, ops.size("p"))
        if shp in ("mn*", "m|", "mn+"):
            names = ["A", "B"]
        op = mk_(I, A, B)
        fn = p02.lop(I, {"-A": "neg", "A + B": "add", "A - B": "subtract", "A @ B": "compose"}.get(label, label))
        if label == "scale":
            data = [T.sym("alpha")]
    elif label == "power":
        fn = p02.lop(I, "power")
        op = I.call(fn, [A, ops.size("p")], {})
    elif label.startswith("partial_op"):
        fn = p02.lop(I, "partial_op")
        k = ops.size("k")
        a = [A, ops.array("picks", k)] + ([ops.array("perm", n)] if "perm" in label else [])
        op = I.call(fn, a, {})
    elif label == "block_diag":
        fn = p02.lop(I, "block_diag")
        L = [ops.operand(I, "B%d" % i, ops.size("m%d" % i), ops.size("n%d" % i)) for i in range(3)]
        op = I.call(fn, [IP.PyTuple(L, "list")], {})
        names = ["B0", "B1", "B2"]
    elif label == "windowed_op":
        fn = p02.lop(I, "windowed_op")
        a, kw = ops.win(I, 0)
        a[1] = ops.operand(I, "T0", T.sym("tm"), T.sym("tn"))
        op = I.call(fn, a, kw)
        names = ["T0"]
    where = p01.where_of(fn)
    along = label in ("block_diag", "windowed_op")
    for f in TRAITS:
        flag = I.to_term(I.getattr(op, f))
        if f == "jit_safe" and label == "jit":
            flag = T.assume(flag, T.mk("attr", T.sym("A"), f), True)
            out.append(("proved", "trait-implication", "lop.jit jit_safe", where, "wrapping requires a compilable operand"))
            continue
        if f == "matrix_safe" and along:
            continue        # applied slice by slice: operands see vectors only
        flag = I.truth(flag)
        for nm in names:
            at = T.mk("attr", T.sym(nm), f)
            g = T.assume(flag, at, False)
            con = "lop.%s %s / operand %s" % (label, f, nm)
            worst = ("proved", "not declared %s when %s is not" % (f, nm))
            for asg, (v,) in T.cases(T.ite(g, ONE, T.ZERO)):
                if v is T.ZERO:
                    continue
                if v is ONE and all(known_flag(c) for c, _ in asg):
                    worst = ("refuted", "declared %s=True although operand %s has %s=False%s" % (
                        f, nm, f, " [%s]" % ", ".join(("" if b else "not ") + T.show(c, 3) for c, b in asg) if asg else ""))
                    break
                worst = ("unknown", "trait %s" % T.show(flag, 4))
            out.append((worst[0], "trait-implication", con, where, worst[1]))
        if f == "real":
            for a in data:
                at = T.mk("call", "np.isrealobj", (a,), ())
                vals = {v for c, v in ((None, None),)}
                g = T.assume(flag, at, False)
                ok = g is T.FALSE
                dep = not ok and not any(s is a for s in T.subterms(flag))
                out.append(("proved" if ok else "refuted" if dep and g is not T.FALSE and all(known_flag(c) for c in atoms(g)) else "unknown",
                            "trait-implication", "lop.%s real / complex %s" % (label, T.show(a)), where, "declared real: %s" % T.show(flag, 4)))
    # declared shape
    tail = ()
    sh = p01.opshape(I, op)
    for d, want, inn in (("times", sh[0], sh[1]), ("trans", sh[1], sh[0])):
        v = ops.array("x" if d == "times" else "y", *inn)
        rows = []
        t = I.to_term(I.call(I.getattr(op, d), [v], {}))
        t = T.assume(t, T.mk("attr", T.sym("A"), "jit_safe"), True)
        if label == "power":
            I2 = I.unroll
            I.unroll = 4
            op2 = I.call(fn, [A, num(2)], {})
            t = I.to_term(I.call(I.getattr(op2, d), [v], {}))
            I.unroll = I2
        for asg, (u,) in T.cases(t):
            rows.append(shape_verdict(S.shape_of(u), want, [c for c in p01.conds(asg) if c.op not in ("attr", "not")]))
        out.append(rows_fold(rows, "declared-shape", "lop.%s %s" % (label, d), where))
        # the operand is applied to vectors of its own input length
        ev = [e for e in I.events if e.kind == "app"]
        seen = set()
        for e in ev:
            o, dd, arg = e.data
            s = S.shape_of(arg)
            osh = T.CTX.shapes.get(o)
            if s is None or osh is None or (o, dd, s) in seen:
                continue
            seen.add((o, dd, s))
            w = osh[1] if dd == "times" else osh[0]
            ver = shape_verdict(s[:1], (w,))
            if ver[0] == "refuted":
                out.append(("refuted", "operand-shape", "lop.%s applies %s.%s" % (label, T.show(o), dd), where, ver[1]))
    return out


def atoms(g):
    return [c for c in T.atoms_of_cond(g)]


def known_flag(c):
    return (c.op == "attr" and c.args[1] in TRAITS) or (c.op == "call" and c.args[0] in ("np.isrealobj", "np.iscomplexobj"))


def jobs():
    js = []
    for c in ops.cases():
        for r, a in c.ranks:
            js.append(("ctor", c.name, c.label, r, a))
        if c.ranks[0][0] != "shape" and c.name not in ("windowed_op", "block_diag"):
            js.append(("matrix", c.name, c.label))
    for l in list(p02.specs()) + ["power", "partial_op", "partial_op perm", "block_diag", "windowed_op"]:
        js.append(("trait", l))
    return js


def run(r):
    js = jobs()
    if os.environ.get("VP_ONLY"):
        js = [j for j in js if j[1] in os.environ["VP_ONLY"].split(",")]
    par.fold(r, par.pmap(job, js, timeout=60), js, "declared-shape", lambda j: "lop." + " ".join(str(x) for x in j[1:]))
    r.assumptions.append("sizes at least the documented minimum")
