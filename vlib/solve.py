"""Symbolic calls of the iterative solvers (shared by the solver properties)."""
from . import interp as IP
from . import ops
from . import term as T
from . import shape as S
from . import kernel as K
from .term import num, const, ONE, ZERO
from .props.p10 import pos


def sc(n, nonneg=True):
    s = ops.scalar(n, True)
    if nonneg:
        T.CTX.nonneg.add(s)
    return s


def isz(n, lb=1):
    return ops.size(n, lb)


class Solver:
    def __init__(self, mod, name, label, args, model="matrix", real=True, rec=None, **kw):
        self.mod, self.name, self.label, self.args, self.model, self.real, self.rec, self.kw = mod, name, label, args, model, real, rec, kw

    @property
    def construct(self):
        return ("%s.%s %s" % (self.mod.replace("cr.sparse.", ""), self.name, self.label)).strip()


class Analysed:
    def __init__(self, case):
        ops.reset()
        T.CTX.real = case.real
        I = self.I = IP.Interp()
        self.case = case
        f = I.get(case.mod, case.name)
        self.y = ops.array("y", ops.size("m"), real=case.real)
        if case.model == "matrix":
            self.A = ops.array("Phi", ops.size("m"), ops.size("n"), real=case.real)
        elif case.model == "square":
            self.A = ops.array("Phi", ops.size("m"), ops.size("m"), real=case.real)
        elif case.model == "op":
            self.A = ops.operand(I, "Phi", ops.size("m"), ops.size("n"), real=T.TRUE if case.real else T.FALSE, linear=T.TRUE)
        elif case.model == "sqop":
            self.A = ops.operand(I, "Phi", ops.size("m"), ops.size("m"), real=T.TRUE if case.real else T.FALSE, linear=T.TRUE)
        else:
            self.A = None
        a, k = case.args(self)
        self.args, self.kwargs = a, k
        self.e0 = len(I.events)
        self.l0 = len(I.loops)
        self.result = I.call(f, a, k)
        self.loops = I.loops[self.l0:]
        self.events = I.events[self.e0:]
        fn = f
        while isinstance(fn, (IP.Jit, IP.Partial)):
            fn = fn.func
        self.where = (fn.module.rel, fn.qual, fn.node.lineno) if isinstance(fn, IP.Func) else ("?", case.name, 0)

    def field(self, name):
        r = self.result
        if isinstance(r, IP.NT) and name in r.fields:
            return self.I.to_term(r.fields[name])
        if isinstance(r, IP.NT):
            return self.I.to_term(self.I.getattr(r, name))
        return None


def uf(name, shape, args):
    """value of an unknown real function at the given arguments"""
    t = T.mk("uf", name, shape, tuple(args))
    if shape == ():
        T.CTX.scalars.add(t)
    else:
        T.CTX.shapes[t] = shape
    T.CTX.reals.add(t)
    return t


def unknown(s, cls, name, table):
    """a record of unknown functions: field -> tuple of (function name, shape, argument count)"""
    I = s.I
    syms = {}
    for f, outs in table.items():
        syms[T.mk("attr", T.sym(name), f)] = outs
    old = I.hooks.get("apply")

    def h(I2, t, ta, tk, node):
        o = syms.get(t)
        if o is None:
            return old(I2, t, ta, tk, node) if old else None
        I2.event("apply", (t, ta, tk), node)
        if callable(o):
            return o(*ta)
        v = [uf(name + "." + nm, sh, ta[:k]) for nm, sh, k in o]
        return v[0] if len(v) == 1 else IP.PyTuple(v)
    I.hooks["apply"] = h
    if cls is None:
        return [T.mk("attr", T.sym(name), f) for f in table]
    return IP.NT(I.get("cr.sparse.opt", cls), {f: T.mk("attr", T.sym(name), f) for f in table})


def smooth(s, name, dim):
    d = (ops.size(dim),)
    return unknown(s, "SmoothFunction", name, {"func": (("f", (), 1),), "grad": (("g", d, 1),), "grad_val": (("g", d, 1), ("f", (), 1))})


def proxcap(s, name, dim):
    d = (ops.size(dim),)

    def pv(x, t):
        p = uf(name + ".p", d, [x, t])
        return IP.PyTuple([p, uf(name + ".f", (), [p])])
    return unknown(s, "ProxCapable", name, {"func": (("f", (), 1),), "prox_op": (("p", d, 2),), "prox_vec_val": pv})


def projector(s, name, dim):
    return unknown(s, None, name, {"call": (("p", (ops.size(dim),), 1),)})[0]


def opts(s, mod, cls, **kw):
    c = s.I.get(mod, cls)
    return s.I.call(c, [], kw)


def table():
    """every iterative solver of the library with symbolic data, one entry per configuration"""
    C = []
    N = lambda: isz("N")
    K_ = lambda: isz("K")
    PU = "cr.sparse.pursuit."
    tol = lambda: sc("tol")
    st = lambda: sc("mu")

    def c(mod, name, label, args, model="matrix", real=True, **kw):
        C.append(Solver(mod, name, label, args, model, real, **kw))
    X = dict(x="x")
    XI = dict(support=True)
    it0, it1 = dict(first=0), dict(first=1)
    c(PU + "mp", "matrix_solve", "", lambda s: ([s.A, s.y, N()], {}), **X, **it0)
    c(PU + "mp", "solve", "", lambda s: ([s.A, s.y, N()], {}), "op", **X, **it0)
    c(PU + "mp", "solve", "tolerance", lambda s: ([s.A, s.y], {"max_iters": N(), "res_norm_rtol": tol()}), "op", **X, **it0)
    for nm, mdl in (("matrix_solve", "matrix"), ("solve", "matrix"), ("operator_solve", "op")):
        c(PU + "omp", nm, "", lambda s: ([s.A, s.y, N()], {}), mdl, **XI, **it1)
    c(PU + "omp", "operator_solve", "complex", lambda s: ([s.A, s.y, N()], {}), "op", False, **XI, **it1)
    for md in ("iht", "htp"):
        for nm, mdl in (("matrix_solve", "matrix"), ("operator_solve", "op")):
            for lab, kw in (("step_size", lambda: {"step_size": st(), "max_iters": N()}), ("normalized", lambda: {"normalized": const(True), "max_iters": N()}),
                            ("default limit", lambda: {"step_size": st()})):
                c(PU + md, nm, lab, (lambda kw: lambda s: ([s.A, s.y, K_()], kw()))(kw), mdl, **XI, **it1, limit="m" if lab == "default limit" else "N")
    for md in ("sp", "cosamp"):
        for nm, mdl in (("matrix_solve", "matrix"), ("operator_solve", "op")):
            for lab, kw in (("", lambda: {"max_iters": N()}), ("default limit", lambda: {})):
                c(PU + md, nm, lab, (lambda kw: lambda s: ([s.A, s.y, K_()], kw()))(kw), mdl, **XI, **it1, limit="m" if lab == "default limit" else "N")
        c(PU + md, "operator_solve", "complex", lambda s: ([s.A, s.y, K_()], {"max_iters": N()}), "op", False, **XI, **it1)
    CG = "cr.sparse.opt.cg"
    vec_ = lambda s, n, d: ops.array(n, ops.size(d), real=s.case.real)
    c("cr.sparse.opt.cg", "solve_from", "", lambda s: ([s.A, s.y, vec_(s, "x0", "m")], {"max_iters": N()}), "square", **X, **it0)
    c("cr.sparse.opt.cg", "solve_from", "default limit", lambda s: ([s.A, s.y, vec_(s, "x0", "m")], {}), "square", **X, **it0, limit="m")
    c("cr.sparse.opt.cg", "solve", "", lambda s: ([s.A, s.y], {"max_iters": N()}), "square", **X, **it0)
    c("cr.sparse.opt.pcg", "solve_from", "", lambda s: ([s.I.getattr(s.A, "times"), s.y, vec_(s, "x0", "m")], {"max_iters": N()}), "sqop", **X, **it1)
    c("cr.sparse.opt.pcg", "solve_from", "preconditioned", lambda s: ([s.I.getattr(s.A, "times"), s.y, vec_(s, "x0", "m")], {"max_iters": N(), "M": s.I.getattr(ops.operand(s.I, "Mop", ops.size("m"), ops.size("m"), real=T.TRUE), "times")}), "sqop", **X, **it1)
    c("cr.sparse.opt.pcg", "solve", "", lambda s: ([s.I.getattr(s.A, "times"), s.y], {"max_iters": N()}), "sqop", **X, **it1)
    SL = "cr.sparse.sls"
    basis = lambda s: ops.operand(s.I, "W", ops.size("n"), ops.size("n"), real=T.TRUE, linear=T.TRUE)
    for nm in ("ista", "fista"):
        c(SL, nm, "", lambda s: ([s.A, s.y, vec_(s, "x0", "n"), st()], {"max_iters": N()}), "op", **X, **it0)
        c(SL, nm, "basis", lambda s: ([s.A, s.y, vec_(s, "x0", "n"), st()], {"basis": basis(s), "max_iters": N()}), "op", **X, **it0)
        c(SL, nm, "default limit", lambda s: ([s.A, s.y, vec_(s, "x0", "n"), st()], {}), "op", **X, **it0, limit=1000)
    c(SL, "lsqr", "", lambda s: ([s.A, s.y, vec_(s, "x0", "n")], {"max_iters": N()}), "op", **it1)
    c(SL, "lsqr", "damped", lambda s: ([s.A, s.y, vec_(s, "x0", "n")], {"max_iters": N(), "damp": sc("damp")}), "op", **it1)
    c(SL, "power_iterations", "", lambda s: ([s.A, s.y], {"max_iters": N()}), "sqop", **it0)
    c("cr.sparse.cvx.focuss", "matrix_solve_noiseless", "", lambda s: ([s.A, s.y], {"max_iters": N()}), **X, **it0)
    L1 = "cr.sparse.cvx.l1ls"
    c(L1, "solve_from", "", lambda s: ([s.A, s.y, sc("lam"), vec_(s, "x0", "n"), vec_(s, "u0", "n")], {"max_iters": N(), "pcg_max_iters": isz("M")}), "op", **X, **it1)
    c(L1, "solve", "", lambda s: ([s.A, s.y, sc("lam")], {"max_iters": N(), "pcg_max_iters": isz("M")}), "op", **X, **it1)
    SG = "cr.sparse.cvx.spgl1"
    sgo = lambda s: {"options": opts(s, SG, "SPGL1Options", max_iters=N())}
    for real in (True, False):
        lab = "" if real else "complex"
        c(SG, "solve_lasso_from", lab, lambda s: ([s.A, s.y, sc("tau"), vec_(s, "x0", "n")], sgo(s)), "op", real, **X, **it1)
        c(SG, "solve_bpic_from", lab, lambda s: ([s.A, s.y, sc("sigma"), vec_(s, "x0", "n")], sgo(s)), "op", real, **X, **it1)
    c(SG, "solve_lasso", "", lambda s: ([s.A, s.y, sc("tau")], sgo(s)), "op", **X, **it1)
    c(SG, "solve_bpic", "", lambda s: ([s.A, s.y, sc("sigma")], sgo(s)), "op", **X, **it1)
    c(SG, "solve_bp", "", lambda s: ([s.A, s.y], sgo(s)), "op", **X, **it1)
    YA = "cr.sparse.cvx.adm.yall1"
    bas = lambda s: {"W": ops.operand(s.I, "W", ops.size("n"), ops.size("n"), real=T.TRUE, linear=T.TRUE)}
    for lab, kw in (("bp", lambda s: {}), ("l1l2", lambda s: {"rho": pos("rho")}), ("l1l2con", lambda s: {"delta": pos("delta")})):
        for l2, k2 in (("", lambda s: {}), ("nonneg", lambda s: {"nonneg": const(True), "gamma": pos("gamma")}), ("basis", bas), ("nojit", lambda s: {"jit": const(False)}),
                       ("start", lambda s: {"x0": vec_(s, "x0", "n"), "z0": vec_(s, "z0", "n")})):
            def a(s, kw=kw, k2=k2):
                d = {"max_iters": N()}
                d.update(kw(s))
                d.update(k2(s))
                return [s.A, s.y], d
            c(YA, "solve", (lab + " " + l2).strip(), a, "op", **X, **it0, step=2)
    BS = "cr.sparse.block.bsbl"
    for nm in ("bsbl_em", "bsbl_bo", "bsbl_bo_np"):
        c(BS, nm, "", (lambda nm: lambda s: ([s.A, s.y, isz("blk")], {"options": opts(s, BS, "BSBL_Options", max_iters=N())}))(nm), **X, **it0)
    c("cr.sparse.cs.cs1bit", "biht", "", lambda s: ([s.A, s.y, K_(), sc("tau")], {"max_iters": N()}), support=True, sign=True, **it0)
    c("cr.sparse.opt.spg", "solve_from", "", lambda s: ([smooth(s, "F", "n"), projector(s, "P", "n"), vec_(s, "x0", "n")], {"options": opts(s, "cr.sparse.opt.spg", "SPGOptions", max_iters=N())}), None, **it1)
    FO = "cr.sparse.fom"
    fo = lambda s: opts(s, FO, "FomOptions", max_iters=N())
    c(FO, "fom", "", lambda s: ([smooth(s, "F", "m"), proxcap(s, "H", "n"), s.A, s.y, vec_(s, "x0", "n"), fo(s)], {}), "op", **it1)
    for nm in ("lasso", "l1rls", "owl1rls"):
        c(FO, nm, "", lambda s: ([s.A, s.y, pos("lam"), vec_(s, "x0", "n"), fo(s)], {}), "op", **it1)
    c(FO, "scd", "", lambda s: ([proxcap(s, "H", "m"), proxcap(s, "G", "n"), s.A, s.y, pos("mu"), vec_(s, "x0", "m"), vec_(s, "z0", "n"), fo(s)], {}), "op", **it1)
    KM = "cr.sparse._src.cluster.kmeans"
    pts = lambda: ops.array("pts", ops.size("p"), ops.size("d"), real=True)
    c(KM, "kmeans_with_seed", "", lambda s: ([T.sym("key"), pts(), K_()], {"max_iters": N()}), None, **it0)
    c(KM, "kmeans_with_seed", "default limit", lambda s: ([T.sym("key"), pts(), K_()], {}), None, **it0, limit=100)
    c("cr.sparse.lop", "normest", "", lambda s: ([s.A], {"max_iters": N()}), "op", **it0)
    c("cr.sparse.lop", "normest", "default limit", lambda s: ([s.A], {}), "op", **it0, limit=100)
    return C
