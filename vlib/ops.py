"""Symbolic construction of every public operator constructor (shared by the
operator properties)."""
from . import interp as IP
from . import term as T
from . import shape as S
from . import kernel as K
from .term import num, ONE, const, NONE


def reset():
    T.CTX.__init__()
    T._realmemo.clear()
    S.clear()
    K.FACTS.__init__()
    K.REALS.clear()
    K.INTS.clear()
    K.OPDIMS.clear()
    K.INDEX.clear()
    T.CTX.scalars.add(T.sym("pi"))
    T.CTX.nonneg.add(T.sym("pi"))
    K.REALS.add(T.sym("pi"))


def size(name, lb=1):
    s = T.sym(name)
    T.CTX.scalars.add(s)
    T.CTX.nonneg.add(s)
    K.INTS.add(s)
    K.FACTS.lb[s] = lb
    return s


def scalar(name, real=False):
    s = T.sym(name)
    T.CTX.scalars.add(s)
    if real:
        K.REALS.add(s)
        T.CTX.reals.add(s)
    return s


DATA = set()


def array(name, *shape, real=False):
    s = T.sym(name)
    DATA.add(s)
    T.CTX.shapes[s] = tuple(shape)
    if real:
        K.REALS.add(s)
        T.CTX.reals.add(s)
    return s


def opsym(I, name, m, n):
    s = T.sym(name)
    T.CTX.shapes[s] = (m, n)
    I.opsyms.add(s)
    for f in ("jit_safe", "matrix_safe", "linear", "real"):
        pass
    return s


def operand(I, name, m, n, **flags):
    """an arbitrary operator value: times/trans uninterpreted, declared shape,
    traits free booleans unless fixed"""
    s = T.sym(name)
    T.CTX.shapes[s] = (m, n)
    K.OPDIMS[s] = tuple(len(d) if isinstance(d, tuple) else 1 for d in (m, n))
    cls = I.get("cr.sparse.lop", "Operator")
    f = {}
    for nm, d in cls.fields:
        f[nm] = T.mk("attr", s, nm)
    f["shape"] = tupv(*[tupv(*d) if isinstance(d, tuple) else d for d in (m, n)])
    for k, v in flags.items():
        f[k] = v
    return IP.NT(cls, f)


class Case:
    """one symbolic call of a constructor"""

    def __init__(self, name, label, build, ranks=((1, 0),), real=None, note=""):
        self.name, self.label, self.build, self.ranks, self.real, self.note = name, label, build, ranks, real, note


ALONG = ((1, 0), (2, 0), (2, 1), (3, 1), (3, 0), (3, 2))
AX0 = ((1, 0), (2, 0))
VEC = ((1, 0),)


def tupv(*xs):
    return IP.PyTuple(list(xs))


def cases():
    """(name, label, fn(I, axis) -> (args, kwargs), ranks)"""
    C = []

    def c(name, label, fn, ranks=VEC, **kw):
        C.append(Case(name, label, fn, ranks, **kw))
    ax = lambda a: {"axis": num(a)}
    c("real_matrix", "", lambda I, a: ([array("A", size("m"), size("n"), real=True)], {}), VEC)
    c("matrix", "", lambda I, a: ([array("A", size("m"), size("n"))], ax(a)), ((1, 0), (2, 0), (2, 1), (3, 2), (3, 0), (3, 1)))
    c("sparse_real_matrix", "", lambda I, a: ([array("A", size("m"), size("n"), real=True)], ax(a)), ((1, 0), (2, 0), (2, 1)))
    c("diagonal", "", lambda I, a: ([array("d", size("n"))], ax(a)), ALONG)
    c("scalar_mult", "", lambda I, a: ([scalar("alpha"), size("n")], {}), AX0)
    c("zero", "rect", lambda I, a: ([size("p"), size("q")], ax(a)), ALONG)
    c("identity", "square", lambda I, a: ([size("n")], ax(a)), ALONG)
    c("identity", "rect", lambda I, a: ([size("p"), size("q")], ax(a)), ALONG)
    c("flipud", "", lambda I, a: ([size("n")], {}), AX0)
    c("sum", "", lambda I, a: ([size("n")], {}), AX0)
    c("pad_zeros", "", lambda I, a: ([size("n"), size("before", 0), size("after", 0)], {}), VEC)
    c("symmetrize", "", lambda I, a: ([size("n")], {}), AX0)
    c("restriction", "", lambda I, a: ([size("n"), array("J", size("k"))], ax(a)), ALONG)
    for nm in ("heaviside", "inv_heaviside"):
        for nrm in (True, False):
            c(nm, "normalized=%s" % nrm, (lambda nrm: lambda I, a: ([size("n", 2)], dict(ax(a), normalized=const(nrm))))(nrm), ALONG)
    c("cumsum", "", lambda I, a: ([size("n", 2)], ax(a)), ALONG)
    c("diff", "", lambda I, a: ([size("n", 2)], ax(a)), ALONG)
    for kind in ("forward", "backward", "centered"):
        c("first_derivative", kind, (lambda kind: lambda I, a: ([size("n", 3), scalar("dx", True)], {"kind": const(kind)}))(kind), VEC)
    c("second_derivative", "", lambda I, a: ([size("n", 3), scalar("dx", True)], {}), VEC)
    c("reshape", "2d->3d", lambda I, a: ([tupv(size("a0"), size("a1")), tupv(size("b0"), size("b1"), size("b2"))], {}), (("shape", 0),))
    c("arr2vec", "2d", lambda I, a: ([tupv(size("a0"), size("a1"))], {}), (("shape", 0),))
    c("arr2vec", "3d", lambda I, a: ([tupv(size("a0"), size("a1"), size("a2"))], {}), (("shape", 0),))
    c("circulant", "", lambda I, a: circ(I, a), ALONG, real=True)
    c("running_average", "", lambda I, a: filt(I, a, False), ALONG)
    c("fir_filter", "", lambda I, a: filt(I, a, True), ALONG)
    c("convolve", "", lambda I, a: conv(I, a), ALONG)
    c("convolve", "default offset", lambda I, a: conv(I, a, False), ((1, 0), (2, 1)))
    c("convolve2D", "default offset", lambda I, a: conv2(I, a, False), (("shape", 0),))
    c("convolve2D", "", lambda I, a: conv2(I, a), (("shape", 0),))
    c("convolveND", "2d", lambda I, a: conv2(I, a), (("shape", 0),))
    for axs in ((0, 1), (1, 2), (0, 2)):
        c("convolveND", "3d axes=%s" % (axs,), (lambda axs: lambda I, a: convax(I, axs))(axs), (("shape", 0),))
    for mode in ("r2c", "c2c"):
        c("fft", mode, (lambda mode: lambda I, a: fftc(I, a, mode))(mode), ALONG, real=(mode == "r2c"))
    for b in (False, True):
        for lev in (1, 2, 3):
            c("dwt", "level=%d basis=%s" % (lev, b), (lambda b, lev: lambda I, a: wav(I, lev, (size("n", 2),), dict(ax(a), basis=const(b))))(b, lev), ((1, 0), (2, 1)), real=True)
            c("dwt2D", "level=%d basis=%s" % (lev, b), (lambda b, lev: lambda I, a: wav(I, lev, (size("h0", 2), size("w0", 2)), {"basis": const(b)}))(b, lev), (("shape", 0),), real=True)
    c("fourier_basis", "", lambda I, a: ([size("n")], {}), AX0)
    c("dirac_fourier_basis", "", lambda I, a: ([size("n")], {}), AX0)
    c("cosine_basis", "", lambda I, a: ([size("n", 2)], {}), VEC, real=True)
    c("walsh_hadamard_basis", "", lambda I, a: ([size("n")], {}), VEC)
    for kind in ("regular", "dirichlet", "circular"):
        c("tv", kind, (lambda kind: lambda I, a: ([size("n", 2)], dict(ax(a), kind=const(kind))))(kind), ALONG)
        c("tv2D", kind, (lambda kind: lambda I, a: ([tupv(size("h0", 2), size("w0", 2))], {"kind": const(kind)}))(kind), (("shape", 0),))
    c("dot", "vector", lambda I, a: ([array("v", size("n"), real=True)], {}), VEC, real=True)
    c("dot", "array", lambda I, a: ([array("v", size("n0"), size("n1"), real=True)], {}), (("shape", 0),), real=True)
    c("dot", "adjoint", lambda I, a: ([array("v", size("n"), real=True)], {"adjoint": const(True)}), VEC, real=True)
    c("windowed_op", "", lambda I, a: win(I, a), ((1, 0), (2, 0), (2, 1)))
    c("block_diag", "3 blocks", lambda I, a: blk(I, a), ((1, 0), (2, 0), (2, 1)))
    K_ = T.sym("key")
    for nm in ("gaussian_dict", "rademacher_dict", "random_orthonormal_rows_dict"):
        c(nm, "", lambda I, a: ([T.sym("key"), size("m"), size("n")], ax(a)), ((1, 0), (2, 0), (2, 1)))
    c("random_onb_dict", "", lambda I, a: ([T.sym("key"), size("n")], ax(a)), ((1, 0), (2, 0), (2, 1)))
    for d in (True, False):
        c("sparse_binary_dict", "dense=%s" % d, (lambda d: lambda I, a: ([T.sym("key"), size("m"), size("n")], dict(ax(a), dense=const(d))))(d), ((1, 0), (2, 0), (2, 1)))
    c("binary_dict_alg", "", lambda I, a: ([T.sym("key"), size("m"), size("n")], ax(a)), VEC)
    return C


def wav(I, lev, dims, kw):
    """padded lengths are powers of two that the decomposition depth divides"""
    pads = {}

    def npow2(I2, f, args, k, node):
        d = I2.to_term(args[0])
        if d not in pads:
            q = size("q_" + T.show(d))
            pads[d] = T.scale(q, 2 ** lev)
            K.FACTS.extra.append(T.sub(pads[d], d))
        return pads[d]
    for m in ("cr.wavelets._src.util", "cr.nimble._src.discrete.number"):
        I.opaque_funcs[m + ":next_pow_of_2"] = npow2
    a = [dims[0]] if len(dims) == 1 else [tupv(*dims)]
    return a, dict(kw, level=num(lev))


def circ(I, a):
    n, r = size("n"), size("r")
    K.FACTS.extra.append(T.sub(n, r))
    return [n, array("c", r, real=True)], {"axis": num(a)}


def filt(I, a, fir):
    n, L = size("n"), size("L")
    K.FACTS.extra.append(T.sub(n, L))
    if fir:
        return [n, array("h", L)], {"axis": num(a)}
    return [n, L], {"axis": num(a)}


def conv(I, a, off=True):
    n, L, o = size("n"), size("L"), size("off", 0)
    K.FACTS.extra.append(T.sub(T.sub(L, ONE), o))
    return [n, array("h", L)] + [o] * off, {"axis": num(a)}


def conv2(I, a, off=True):
    n0, n1, L0, L1, o0, o1 = size("n0"), size("n1"), size("L0"), size("L1"), size("off0", 0), size("off1", 0)
    K.FACTS.extra += [T.sub(T.sub(L0, ONE), o0), T.sub(T.sub(L1, ONE), o1)]
    return [tupv(n0, n1), array("h", L0, L1)] + [tupv(o0, o1)] * off, {}


def convax(I, axs):
    n = [size("n%d" % i) for i in range(3)]
    L0, L1, o0, o1 = size("L0"), size("L1"), size("off0", 0), size("off1", 0)
    K.FACTS.extra += [T.sub(T.sub(L0, ONE), o0), T.sub(T.sub(L1, ONE), o1)]
    return [tupv(*n), array("h", L0, L1), tupv(o0, o1)], {"axes": tupv(*[num(i) for i in axs])}


def fftc(I, a, mode):
    m, n = size("m"), size("n")
    K.FACTS.extra.append(T.sub(n, m))
    return [m, n], {"axis": num(a), "mode": const(mode)}


def win(I, a):
    m, tm, tn, ov = size("m"), size("tm"), size("tn"), size("ov", 0)
    K.FACTS.extra.append(T.sub(T.sub(tm, ONE), ov))
    return [m, opsym(I, "T0", tm, tn), ov], {"axis": num(a)}


def blk(I, a):
    ops = [opsym(I, "B%d" % i, size("m%d" % i), size("n%d" % i)) for i in range(3)]
    return [IP.PyTuple(ops, "list")], {"axis": num(a)}


def dims_of(v):
    """operator dimension entry -> tuple of dims"""
    if isinstance(v, IP.PyTuple):
        return tuple(v.items)
    if isinstance(v, T.Term) and v.op == "tuple":
        return tuple(v.args[0])
    if isinstance(v, T.Term) and v.op == "shape" and S.shape_of(v.args[0]) is not None:
        return tuple(S.shape_of(v.args[0]))
    return (v,)


def stack_shape(d, rank, axis):
    """shape of a stack of vectors with dims d along axis"""
    if rank == "shape":
        return d
    if len(d) != 1:
        return None
    extra = [size("e%d" % i) for i in range(rank - 1)]
    return tuple(extra[:axis]) + d + tuple(extra[axis:])
