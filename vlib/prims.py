"""Meaning of the external primitives (jax.numpy, numpy, math, cr.nimble ...)
on value terms.  Anything not listed stays an uninterpreted function of its
arguments, which is always sound for equality."""
from fractions import Fraction
import math
from . import term as T
from .term import (mk, num, sym, const, add, sub, mul, div, power, neg, sqrt, abs_, conj,
                   real_, transpose, hermitian, mm, vdot, n2, cmp, not_, and_, or_, ite,
                   maximum, minimum, linear1, is_num, NONE, TRUE, FALSE, ONE, ZERO)
from . import shape as S


def tup(items):
    return mk("tuple", tuple(items))


def is_tup(t):
    return isinstance(t, T.Term) and t.op == "tuple"


def slc(lo=NONE, hi=NONE, st=NONE):
    if st is ONE:
        st = NONE
    if lo is ZERO and (st is NONE):
        lo = NONE
    return mk("slice", lo, hi, st)


FULL = slc()


def dim(x, i):
    if isinstance(i, int):
        i = num(i)
    s = S.shape_of(x)
    if s is not None and is_num(i):
        k = int(i.args[0])
        if -len(s) <= k < len(s):
            return s[k]
    if x.op in ("conj", "abs", "real"):
        return dim(x.args[0], i)
    if x.op == "T" and is_num(i) and int(i.args[0]) in (0, 1):
        return dim(x.args[0], 1 - int(i.args[0]))
    if x.op == "sum":
        # same-shaped additive terms: use the first non scalar mono
        for m, _ in x.args[0]:
            if not T.is_scalar(m):
                return dim(m, i)
    if x.op == "mm" and is_num(i) and int(i.args[0]) == 0:
        return dim(x.args[0], 0)
    t = mk("dim", x, i)
    return t


def size(x):
    s = S.shape_of(x)
    if s is not None:
        return mul(*s) if s else ONE
    return mk("size", x)


def _arg_of(t, kind):
    if t.op == kind:
        return t.args[0]
    if t.op == "call" and t.args[0] == "np." + kind and len(t.args[1]) == 1 and all(v is NONE for _, v in t.args[2]):
        return t.args[1][0]
    return None


def _extreme(b, i):
    """x[unravel_index(argmax(x), x.shape)] and the ends of sorted singular values"""
    if i.op == "call" and i.args[0] == "np.unravel_index" and len(i.args[1]) == 2:
        sh = i.args[1][1]
        s = S.shape_of(b)
        if (sh.op == "shape" and sh.args[0] is b) or (s is not None and sh.op == "tuple" and tuple(sh.args[0]) == tuple(s)):
            for kind, r in (("argmax", "max0"), ("argmin", "min0")):
                if _arg_of(i.args[1][0], kind) is b:
                    if r == "max0" and b.op == "abs":
                        return T.mk("norminf", b.args[0])
                    return T.mk(r, b)
    if b.op == "call" and b.args[0] == "linalg.svd" and not b.args[2] and len(b.args[1]) == 3 and b.args[1][2] is FALSE:
        if i is ZERO:
            return T.mk("max0", b)
        if is_num(i) and i.args[0] == -1:
            return T.mk("min0", b)
        if i.op == "array" and is_tup(i.args[0]) and all(x is ZERO or is_num(x) and x.args[0] == -1 for x in i.args[0].args[0]):
            return T.mk("array", tup([_extreme(b, x) for x in i.args[0].args[0]]))
    return None


def index(b, i):
    if b is ZERO:
        return ZERO
    r = _extreme(b, i)
    if r is not None:
        return r
    if i is FULL or (is_tup(i) and i.args[0] and all(x is FULL for x in i.args[0])):
        return b
    if is_tup(i):
        # trailing full slices are redundant
        items = list(i.args[0])
        while len(items) > 1 and items[-1] is FULL:
            items.pop()
        i = items[0] if len(items) == 1 else tup(items)
        if i is FULL:
            return b
    if i.op == "slice" and i.args[0] is NONE and i.args[1] is NONE and is_num(i.args[2]) and i.args[2].args[0] == -1 \
            and b.op not in ("tuple", "shape"):
        return linear1("flip", b)
    if b.op == "tuple":
        if is_num(i):
            k = int(i.args[0])
            if -len(b.args[0]) <= k < len(b.args[0]):
                return b.args[0][k]
        if i.op == "slice" and all(x is NONE or is_num(x) for x in i.args):
            sl = slice(*[None if x is NONE else int(x.args[0]) for x in i.args])
            return tup(b.args[0][sl])
    if b.op == "array" and is_num(i) and b.args[0].op == "tuple":
        return index(b.args[0], i)
    if b.op == "shape" and is_num(i):
        return dim(b.args[0], i)
    if b.op == "ite" and T.array_cond(b.args[0]):
        s = S.shape_of(b)
        if s is None or any(S.shape_of(x) != s for x in b.args):
            return mk("idx", b, i)
        return ite(index(b.args[0], i), index(b.args[1], i), index(b.args[2], i))
    if b.op == "ite" and T.maybe_array(b.args[0]) and (T.is_num(b.args[1]) or T.is_num(b.args[2])):
        return mk("idx", b, i)
    if b.op == "ite":
        return ite(b.args[0], index(b.args[1], i), index(b.args[2], i))
    if T.is_scalar(b) and _plain(i):
        return b
    if b.op == "sum" and T._same_rank([m for m, _ in b.args[0]]):
        return add(*[mul(num(c), index(m, i)) if m is not ONE else num(c) for m, c in b.args[0]])
    if b.op == "prod":
        sc = [(f, e) for f, e in b.args[0] if T.is_scalar(f)]
        rest = [(f, e) for f, e in b.args[0] if not T.is_scalar(f)]
        if len(rest) <= 1 and sc:
            r = mul(*[power(f, e) for f, e in sc])
            if rest:
                f, e = rest[0]
                r = mul(r, power(index(f, i), e)) if e != 1 else mul(r, index(f, i))
            return r
        shp = [S.shape_of(f) for f, _ in rest]
        if all(s is not None for s in shp) and len(set(shp)) == 1:
            return mul(*[power(f, e) for f, e in sc], *[power(index(f, i), e) for f, e in rest])
    if b.op == "conj":
        return conj(index(b.args[0], i))
    if b.op == "num":
        return b
    if b.op == "concat" and i.op == "slice":
        r = _slice_concat(b, i)
        if r is not None:
            return r
    if b.op == "arange" and len(b.args) == 1 and (is_num(i) or S.shape_of(i) == ()) and i.op != "slice":
        if is_num(i) and i.args[0] < 0:
            return add(b.args[0], i)
        return i
    if is_num(i) and b.op in ("zeros", "ones", "at_set"):
        l = literal(b)
        k = int(i.args[0])
        if l is not None and -len(l) <= k < len(l):
            return l[k]
    if b.op == "at_set" and b.args[1] is i:
        return b.args[2]
    if b.op == "n2":
        return b
    return mk("idx", b, i)


def literal(t):
    """Entries of a 1-D array of known length whose entries are all known, or None."""
    if t.op == "tuple":
        return list(t.args[0])
    if t.op == "array" and is_tup(t.args[0]):
        return None if any(is_tup(x) for x in t.args[0].args[0]) else list(t.args[0].args[0])
    if t.op in ("zeros", "ones") and is_num(t.args[0]) and 0 <= t.args[0].args[0] <= 16:
        return [ZERO if t.op == "zeros" else ONE] * int(t.args[0].args[0])
    if t.op == "shape":
        s = S.shape_of(t.args[0])
        return None if s is None else list(s)
    if t.op == "at_set":
        b = literal(t.args[0])
        if b is None:
            return None
        i, v = t.args[1], t.args[2]
        if is_num(i):
            ks, vs = [i], [v]
        else:
            # a tuple of length one is a plain index; longer tuples index several axes
            if i.op == "tuple" and len(i.args[0]) != 1:
                return None
            ks = literal(i)
            vs = literal(v)
            if ks is None or vs is None or len(ks) != len(vs):
                return None
        for k, x in zip(ks, vs):
            if not is_num(k) or k.args[0].denominator != 1 or not -len(b) <= k.args[0] < len(b):
                return None
            b[int(k.args[0])] = x
        return b
    return None


def _plain(i):
    if is_tup(i):
        return all(_plain(x) for x in i.args[0])
    return i is not NONE and not (i.op == "const")


def _slice_concat(b, i):
    lo, hi, st = i.args
    if st is not NONE or b.args[0].op != "tuple":
        return None
    if len(b.args) > 1 and b.args[1] is not ZERO:
        return None
    parts = b.args[0].args[0]
    lens = [dim(p, 0) for p in parts]
    bounds = [ZERO]
    for l in lens:
        bounds.append(add(bounds[-1], l))
    lo = ZERO if lo is NONE else lo
    hi = bounds[-1] if hi is NONE else hi
    if lo in bounds and hi in bounds:
        a, c = bounds.index(lo), bounds.index(hi)
        if a <= c:
            sel = parts[a:c]
            if len(sel) == 1:
                return sel[0]
            return concat(sel)
    return None


def concat(parts, axis=None):
    parts = tuple(parts)
    if len(parts) == 1:
        return parts[0]
    if axis is None or axis is ZERO:
        # flatten nested
        out = []
        for p in parts:
            if p.op == "concat" and len(p.args) == 1 and p.args[0].op == "tuple":
                out.extend(p.args[0].args[0])
            else:
                out.append(p)
        return mk("concat", tup(out))
    return mk("concat", tup(parts), axis)


def index_shape(s, i):
    if s is None:
        return None
    items = list(i.args[0]) if is_tup(i) else [i]
    out = []
    k = 0
    adv = None
    for it in items:
        if it is NONE:
            out.append(ONE)
            continue
        if it.op == "const" and it.args[0] == "ellipsis":
            return None
        if k >= len(s):
            return None
        d = s[k]
        k += 1
        if it.op == "slice":
            lo, hi, st = it.args
            if st is not NONE:
                if hi is NONE and is_num(st) and st.args[0] == -1:
                    if lo is NONE:
                        out.append(d)
                        continue
                    from . import kernel
                    if kernel.FACTS.nonneg(lo):
                        out.append(add(lo, ONE))
                        continue
                if lo is NONE and is_num(st) and st.args[0] == -1 and hi is not NONE:
                    from . import kernel
                    c = sub(T.num(-1), hi)         # x[:-k-1:-1], k at most the length
                    if kernel.FACTS.nonneg(c):
                        out.append(c)
                        continue
                return None
            if lo is NONE and hi is NONE:
                out.append(d)
                continue
            lo2 = ZERO if lo is NONE else lo
            hi2 = d if hi is NONE else hi
            if is_num(lo2) and lo2.args[0] < 0:
                lo2 = add(d, lo2)
            if is_num(hi2) and hi2.args[0] < 0:
                hi2 = add(d, hi2)
            out.append(sub(hi2, lo2))
            continue
        sh = S.shape_of(it)
        if sh is None:
            return None
        if it.op in ("cmp", "and", "or", "not"):
            return None
        if sh == ():
            continue
        if adv is not None:
            return None
        adv = sh
        out.extend(sh)
    out.extend(s[k:])
    return tuple(out)


# ---------------------------------------------------------------- primitives
PRIMS = {}


def prim(*names):
    def deco(f):
        for n in names:
            PRIMS[n] = f
        return f
    return deco


class Fail(Exception):
    """argument pattern not modelled: fall back to an opaque call"""


def kwget(kw, name, default=None):
    return kw.get(name, default)


def _only(kw, *ok):
    for k in kw:
        if k not in ok:
            raise Fail()


IDENT = ["np.asarray", "np.asanyarray", "np.ascontiguousarray", "jax.device_get", "jax.device_put", "lax.stop_gradient",
         "nimble.promote_arg_dtypes1", "np.copy", "jax.block_until_ready", "np.atleast_1d"]
for _n in IDENT:
    PRIMS[_n] = lambda a, kw: a[0]


INTT = {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "integer"}
INTCALL = {"np.round", "np.rint", "np.floor", "np.ceil", "np.trunc", "np.fix", "math.floor", "math.ceil", "builtins.int", "builtins.round", "random.randint",
           "np.argsort", "np.argmax", "np.argmin", "np.nonzero", "np.where", "np.flatnonzero", "np.searchsorted", "random.permutation", "builtins.len"}


def intlike(t):
    """the value is a whole number (or truth value) for certain"""
    if is_num(t):
        return t.args[0].denominator == 1
    if t.op in ("cmp", "and", "or", "not", "argmax", "argmin", "arange", "argsort", "zeros", "ones", "eye", "dim", "size", "ndim", "shape", "largest"):
        return True
    if t.op in ("sum",):
        return all(c.denominator == 1 and intlike(m) for m, c in t.args[0])
    if t.op == "prod":
        return all(e == int(e) and e > 0 and intlike(m) for m, e in t.args[0])
    if t.op in ("idx", "sum0", "max0", "min0", "sort", "cumsum", "reshape", "ravel", "abs"):
        return intlike(t.args[0])
    if t.op == "ite":
        return intlike(t.args[1]) and intlike(t.args[2])
    if t.op == "array" and is_tup(t.args[0]):
        return all(intlike(x) for x in t.args[0].args[0])
    if t.op == "call":
        return t.args[0] in INTCALL
    from . import kernel
    return t in kernel.INTS


def cast(t, d):
    """t stored in element type d: whole-number types truncate what is not known to be whole"""
    n = d.args[0] if d is not None and d.op == "ext" else str(d.args[1]) if d is not None and d.op == "const" else ""
    if n.split(".")[-1] in INTT and isinstance(t, T.Term) and t.op != "tuple" and not intlike(t):
        return mk("call", "np.trunc", (t,), ())
    return t


def _cast1(a, kw):
    return cast(a[0], kw.get("dtype", a[1] if len(a) > 1 else None))


PRIMS["np.asarray"] = _cast1


@prim("np.array")
def _array(a, kw):
    if not is_tup(a[0]):
        return _cast1(a, kw)
    if is_tup(a[0]):
        return mk("array", a[0])
    return a[0]


def _u(names, f):
    def g(a, kw):
        if len(a) != 1:
            raise Fail()
        return f(a[0])
    for n in names:
        PRIMS[n] = g


_u(["np.abs", "np.absolute", "np.fabs", "builtins.abs", "math.fabs"], abs_)
_u(["np.conj", "np.conjugate"], conj)
_u(["np.real"], real_)
_u(["np.imag"], lambda x: ZERO if T.CTX.real else linear1("imag", x))
_u(["np.sqrt", "math.sqrt"], sqrt)
_u(["np.square"], lambda x: power(x, 2))
_u(["np.reciprocal"], lambda x: power(x, -1))
_u(["np.negative"], neg)
_u(["np.positive"], lambda x: x)
_u(["np.logical_not", "np.invert"], not_)
_u(["np.ravel"], lambda x: ravel(x))
_u(["np.exp", "math.exp"], lambda x: mk("exp", x))
_u(["nimble.log_pos"], lambda x: mk("log", x))      # log on its domain
_u(["np.log", "math.log"], lambda x: mk("log", x))


def _log_base(a, kw):
    if len(a) == 1:
        return mk("log", a[0])
    if len(a) == 2 and is_num(a[0]) and is_num(a[1]) and a[1].args[0] == 2:
        k = int(a[0].args[0])
        if k == a[0].args[0] and k > 0 and k & (k - 1) == 0:
            return num(k.bit_length() - 1)
    raise Fail()


PRIMS["math.log"] = _log_base
for _n in ("math.log2", "np.log2"):
    PRIMS[_n] = lambda a, kw: _log_base(list(a) + [num(2)], kw)
_u(["np.sign"], lambda x: sign(x))
_u(["np.cos", "math.cos"], lambda x: mk("cos", x))
_u(["np.sin", "math.sin"], lambda x: mk("sin", x))
_u(["nimble.hermitian", "nimble.mat_hermitian", "nimble._hermitian"], hermitian)
_u(["nimble.mat_transpose", "nimble.transpose"], transpose)
def toint(x):
    if is_num(x):
        return num(int(x.args[0]))
    if x.op in ("sum", "prod") and T.is_scalar(x):
        den = 1
        for m, c in T._as_poly(x).items():
            den = den * c.denominator // math.gcd(den, c.denominator)
        if den != 1 and T.nonneg(x):
            r = mk("floordiv", T.scale(x, den), num(den))
            T.CTX.scalars.add(r)
            return r
    return x


_u(["builtins.int"], toint)
_u(["builtins.float", "builtins.bool", "np.float64", "np.float32", "np.int32"], lambda x: x)


def sign(x):
    if x.op == "num":
        v = x.args[0]
        return num((v > 0) - (v < 0))
    p = T._as_poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return mul(num(1 if c > 0 else -1), mk("sign", m))
    return mk("sign", x)


def ravel(x):
    if T.rank(x) == 1:
        return x
    if T.is_scalar(x):
        return x
    if x.op == "ravel":
        return x
    return linear1("ravel", x)


def _b(names, f):
    def g(a, kw):
        if len(a) != 2:
            raise Fail()
        _only(kw, "preferred_element_type", "precision")
        return f(a[0], a[1])
    for n in names:
        PRIMS[n] = g


_b(["np.add", "operator.add"], add)
_b(["np.subtract", "operator.sub"], sub)
_b(["np.multiply", "operator.mul"], mul)
_b(["np.divide", "np.true_divide", "operator.truediv"], div)
_b(["np.dot", "np.matmul", "operator.matmul"], lambda a, b: mul(a, b) if T.is_scalar(a) or T.is_scalar(b) else mm(a, b))
_b(["np.vdot", "nimble.arr_vdot"], vdot)
_b(["np.inner"], lambda a, b: T.inner(a, b))
_b(["nimble.arr_rdot"], lambda a, b: rdot(a, b))
_b(["np.less", "operator.lt"], lambda a, b: cmp("lt", a, b))
_b(["np.less_equal"], lambda a, b: cmp("le", a, b))
_b(["np.greater"], lambda a, b: cmp("gt", a, b))
_b(["np.greater_equal"], lambda a, b: cmp("ge", a, b))
_b(["np.equal"], lambda a, b: cmp("eq", a, b))
_b(["np.not_equal"], lambda a, b: cmp("ne", a, b))
_b(["np.logical_and", "np.bitwise_and"], and_)
_b(["np.logical_or", "np.bitwise_or"], or_)
_b(["np.maximum"], maximum)
_b(["np.minimum"], minimum)
_b(["nimble.AH_v"], lambda A, v: mm(hermitian(A), v))


def rdot(a, b):
    r = vdot(a, b)
    if T.CTX.real:
        return r
    return real_(r)


@prim("builtins.max")
def _bmax(a, kw):
    if len(a) >= 2:
        return maximum(*a)
    raise Fail()


@prim("builtins.min")
def _bmin(a, kw):
    if len(a) >= 2:
        return minimum(*a)
    raise Fail()


@prim("np.power", "math.pow", "builtins.pow")
def _power(a, kw):
    return pow_(a[0], a[1])


def pow_(a, b):
    if is_num(b):
        return power(a, b.args[0])
    p = T._as_poly(b)
    return mk("pow", a, b)


@prim("np.where", "lax.select")
def _where(a, kw):
    if len(a) != 3:
        raise Fail()
    return where(a[0], a[1], a[2])


def where(c, a, b):
    return ite(c, a, b)


@prim("np.clip")
def _clip(a, kw):
    x = a[0]
    lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min", NONE))
    hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max", NONE))
    if lo is not NONE:
        x = maximum(x, lo)
    if hi is not NONE:
        x = minimum(x, hi)
    return x


def _axis(a, kw, pos=1):
    ax = kw.get("axis")
    if ax is None:
        ax = a[pos] if len(a) > pos else NONE
    return ax


@prim("np.sum")
def _sum(a, kw):
    ax = _axis(a, kw)
    keep = kw.get("keepdims", FALSE)
    x = a[0]
    if ax is NONE or (T.rank(x) == 1 and keep is FALSE):
        if keep is not FALSE:
            raise Fail()
        return sum0(x)
    return linear1("sumax", x, ax, keep)


def sum0(x):
    if isinstance(x, T.Term) and T.isb(x):
        return mk("sum0", x)

    def f(m):
        if m is ONE:
            return mk("sum0", ONE)
        d = dict(T._as_prod(m))
        fs = [(k, e) for k, e in d.items()]
        if len(fs) == 1:
            k, e = fs[0]
            if k.op == "abs" and e == 2:
                return n2(k.args[0])
            if e == 2 and T.CTX.real:
                return n2(k)
        if len(fs) == 1 and fs[0][1] == 1 and fs[0][0].op == "abs":
            return mk("norm1", fs[0][0].args[0])
        if len(fs) == 2 and all(e == 1 for _, e in fs):
            x1, x2 = fs[0][0], fs[1][0]
            if x1.op == "conj" and x1.args[0] is x2:
                return n2(x2)
            if x2.op == "conj" and x2.args[0] is x1:
                return n2(x1)
            if T.rank(x1) == 1 and T.rank(x2) == 1 or T.CTX.real:
                if S.shape_of(x1) == S.shape_of(x2) and S.shape_of(x1) is not None:
                    return T.inner(x1, x2)
        return mk("sum0", m)
    return T._pull(x, f)


@prim("np.mean")
def _mean(a, kw):
    ax = _axis(a, kw)
    if ax is NONE:
        return T._pull(a[0], lambda m: mk("mean0", m))
    return linear1("meanax", a[0], ax, kw.get("keepdims", FALSE))


@prim("np.max", "np.amax")
def _max(a, kw):
    ax = _axis(a, kw)
    if ax is NONE and not (set(kw) - {"axis"}):
        if a[0].op == "abs":
            return mk("norminf", a[0].args[0])
        return mk("max0", a[0])
    raise Fail()


@prim("np.min", "np.amin")
def _min(a, kw):
    ax = _axis(a, kw)
    if ax is NONE and not (set(kw) - {"axis"}):
        return mk("min0", a[0])
    raise Fail()


@prim("np.any")
def _any(a, kw):
    if _axis(a, kw) is NONE:
        return mk("any0", a[0])
    raise Fail()


@prim("np.all")
def _all(a, kw):
    if _axis(a, kw) is NONE:
        return mk("all0", a[0])
    raise Fail()


@prim("linalg.norm", "nimble.arr_l2norm", "nimble.norm_l2", "nimble.arr_rnorm")
def _norm(a, kw):
    o = kw.get("ord", a[1] if len(a) > 1 else NONE)
    if kw.get("axis") is not None or kw.get("keepdims") is not None or len(a) > 2:
        raise Fail()
    x = a[0]
    if o is NONE or (is_num(o) and o.args[0] == 2):
        return sqrt(n2(x))
    if is_num(o) and o.args[0] == 1:
        return norm1(x)
    if o is T.INF:
        return norminf(x)
    raise Fail()


def norm1(x):
    c, q = T.content(x)
    return mul(num(abs(c)), mk("norm1", q)) if c else ZERO


def norminf(x):
    c, q = T.content(x)
    return mul(num(abs(c)), mk("norminf", q)) if c else ZERO


_u(["nimble.sqr_norm_l2", "nimble.arr_l2norm_sqr", "nimble.arr_rnorm_sqr", "nimble.norm_l2_sqr"], n2)


@prim("nimble.norm_l1")
def _n1(a, kw):
    if len(a) != 1 or kw:
        raise Fail()
    return norm1(a[0])


@prim("nimble.norm_linf")
def _ninf(a, kw):
    if len(a) != 1 or kw:
        raise Fail()
    return norminf(a[0])


def _shape_term(s):
    # a 1-tuple shape is the same as its int
    if s.op == "at_set":
        l = literal(s)
        if l is not None:
            s = tup(l)
    if is_tup(s) and len(s.args[0]) == 1:
        return s.args[0][0]
    return s


@prim("builtins.round")
def _round(a, kw):
    from . import kernel
    if len(a) == 1 and (a[0] in kernel.INTS or T.is_num(a[0]) and a[0].args[0].denominator == 1):
        return a[0]
    raise Fail


@prim("np.zeros")
def _zeros(a, kw):
    return mk("zeros", _shape_term(a[0] if a else kw["shape"]))


@prim("np.ones")
def _ones(a, kw):
    return mk("ones", _shape_term(a[0] if a else kw["shape"]))


@prim("np.empty")
def _empty(a, kw):
    return mk("empty", _shape_term(a[0] if a else kw["shape"]))


@prim("np.zeros_like")
def _zl(a, kw):
    s = S.shape_of(a[0])
    if s is not None:
        return mk("zeros", _shape_term(tup(s)))
    return mk("zeros", mk("shape", a[0]))


@prim("np.ones_like")
def _ol(a, kw):
    s = S.shape_of(a[0])
    if s is not None:
        return mk("ones", _shape_term(tup(s)))
    return mk("ones", mk("shape", a[0]))


@prim("np.full", "np.full_like")
def _full(a, kw):
    raise Fail()


@prim("np.arange")
def _arange(a, kw):
    if len(a) == 1:
        return mk("arange", a[0])
    if len(a) == 2:
        if a[0] is ZERO:
            return mk("arange", a[1])
        return mk("arange", a[0], a[1])
    if len(a) == 3:
        return mk("arange", *a)
    raise Fail()


@prim("np.eye", "np.identity")
def _eye(a, kw):
    if len(a) != 1:
        raise Fail()
    return mk("eye", a[0])


@prim("np.concatenate", "np.hstack", "np.append", "np.block")
def _concat(a, kw):
    if len(a) >= 1 and is_tup(a[0]):
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        return concat(a[0].args[0], ax)
    raise Fail()


@prim("np.append")
def _append(a, kw):
    if len(a) == 2 and not kw:
        return concat([a[0], a[1]])
    raise Fail()


@prim("np.hstack")
def _hstack(a, kw):
    if is_tup(a[0]):
        rs = [T.rank(x) for x in a[0].args[0]]
        if all(r == 1 for r in rs):
            return concat(a[0].args[0])
        return mk("hstack", a[0])
    raise Fail()


@prim("np.reshape")
def _reshape(a, kw):
    if kw.get("order") in (const("C"), const("A")):
        kw = {k: v for k, v in kw.items() if k != "order"}
    if "shape" in kw or "newshape" in kw:
        a = list(a) + [kw.get("shape", kw.get("newshape"))]
        kw = {k: v for k, v in kw.items() if k not in ("shape", "newshape")}
    if len(a) == 2 and not kw:
        s = a[1]
        if s.op == "at_set":
            l = literal(s)
            s = s if l is None else tup(l)
        if is_num(s) and s.args[0] == -1:
            return ravel(a[0])
        if is_tup(s) and len(s.args[0]) == 1 and is_num(s.args[0][0]) and s.args[0][0].args[0] == -1:
            return ravel(a[0])
        sh = S.shape_of(a[0])
        if sh is not None and is_tup(s) and tuple(s.args[0]) == tuple(sh):
            return a[0]
        return linear1("reshape", a[0], s)
    raise Fail()


@prim("np.transpose")
def _tr(a, kw):
    if len(a) == 1 and not kw:
        return transpose(a[0])
    raise Fail()


@prim("np.sort")
def _sort(a, kw):
    if len(a) == 1 and not kw:
        if a[0].op == "sort":
            return a[0]
        return mk("sort", a[0])
    raise Fail()


@prim("np.argsort")
def _argsort(a, kw):
    if len(a) == 1 and not kw:
        return mk("argsort", a[0])
    raise Fail()


@prim("np.argmax")
def _argmax(a, kw):
    kw = {k: v for k, v in kw.items() if not (k == "axis" and v is NONE)}
    if len(a) == 1 and not kw:
        return mk("argmax", a[0])
    raise Fail()


@prim("np.argmin")
def _argmin(a, kw):
    kw = {k: v for k, v in kw.items() if not (k == "axis" and v is NONE)}
    if len(a) == 1 and not kw:
        return mk("argmin", a[0])
    raise Fail()


def complex_object(t):
    """dtype question: True / False / None"""
    if T.CTX.real:
        return None if t.op == "unbound" else False
    if T.CTX.cplxobj and t.op in ("sym", "T", "mm", "conj", "idx") and t not in T.CTX.scalars:
        base = [x for x in T.subterms(t) if x.op == "sym" and x in T.CTX.shapes]
        if base and all(x not in T.CTX.reals for x in base):
            return True
    return None


def _cobj(neg):
    def f(a, kw):
        c = complex_object(a[0]) if len(a) == 1 and not kw else None
        if c is None:
            raise Fail()
        return TRUE if c != neg else FALSE
    return f


PRIMS["np.iscomplexobj"] = _cobj(False)
PRIMS["np.isrealobj"] = _cobj(True)


@prim("np.cumsum")
def _cumsum(a, kw):
    ax = _axis(a, kw)
    v = a[0].args[0] if a[0].op == "array" else a[0]
    if is_tup(v) and v.args[0] and all(is_num(x) for x in v.args[0]) and not (set(kw) - {"axis"}) and (ax is NONE or ax is ZERO):
        out, s = [], 0
        for x in v.args[0]:
            s += x.args[0]
            out.append(num(s))
        return mk("array", tup(out))
    if (T.rank(a[0]) == 1 or T.rank(a[0]) is None and (ax is NONE or ax is ZERO)) and not (set(kw) - {"axis"}) and len(a) <= 2 and (ax is NONE or is_num(ax)):
        return linear1("cumsum", a[0])
    raise Fail()


@prim("np.flipud")
def _flipud(a, kw):
    if len(a) == 1 and not kw:
        return linear1("flip", a[0])
    raise Fail()


@prim("np.flip")
def _flip(a, kw):
    ax = _axis(a, kw)
    if ax is ZERO or (ax is NONE and T.rank(a[0]) == 1) or (T.rank(a[0]) == 1 and is_num(ax)):
        return linear1("flip", a[0])
    raise Fail()


@prim("builtins.len")
def _len(a, kw):
    if is_tup(a[0]):
        return num(len(a[0].args[0]))
    if a[0].op == "shape":
        s = S.shape_of(a[0].args[0])
        if s is not None:
            return num(len(s))
        return mk("ndim", a[0].args[0])
    return dim(a[0], 0)


@prim("nimble.largest_indices", "nimble.largest_indices_by")
def _largest(a, kw):
    if len(a) == 2 and not kw:
        return mk("largest", a[0], a[1])
    raise Fail()


@prim("nimble.build_signal_from_indices_and_values")
def _bsig(a, kw):
    if len(a) == 3 and not kw:
        return mk("scatter", a[0], a[1], a[2])
    raise Fail()


@prim("np.outer")
def _outer(a, kw):
    raise Fail()


def attribute(x, name):
    """attribute of an array term"""
    if name == "T":
        return transpose(x)
    if name in ("real",):
        return real_(x)
    if name == "imag":
        return ZERO if T.CTX.real else linear1("imag", x)
    if name == "shape":
        return mk("shape", x)
    if name == "size":
        return size(x)
    if name == "ndim":
        r = T.rank(x)
        return num(r) if r is not None else mk("ndim", x)
    if name == "dtype":
        return mk("dtype", x)
    return None


METHODS = {
    "sum": "np.sum", "mean": "np.mean", "max": "np.max", "min": "np.min", "any": "np.any", "all": "np.all",
    "dot": "np.dot", "conj": "np.conj", "conjugate": "np.conj", "ravel": "np.ravel", "flatten": "np.ravel",
    "reshape": "np.reshape", "transpose": "np.transpose", "clip": "np.clip", "argmax": "np.argmax",
    "argmin": "np.argmin", "cumsum": "np.cumsum", "squeeze": "np.squeeze", "swapaxes": "np.swapaxes",
    "argsort": "np.argsort", "sort": "np.sort", "round": "np.round", "trace": "np.trace", "prod": "np.prod",
    "std": "np.std", "var": "np.var",
}
METHOD_IDENT = {"astype", "copy", "block_until_ready", "item", "todense", "view"}


def _dimslice(x, lo, hi, st, ax):
    if not is_num(ax):
        raise Fail()
    k = int(ax.args[0])
    if k < 0:
        s = S.shape_of(x)
        if s is None:
            raise Fail()
        k += len(s)
    return index(x, tup([FULL] * k + [slc(lo, hi, NONE if st is ONE else st)]))


@prim("lax.slice_in_dim")
def _slice_in_dim(a, kw):
    x = a[0]
    g = lambda i, n, d: a[i] if len(a) > i else kw.get(n, d)
    return _dimslice(x, g(1, "start_index", NONE), g(2, "limit_index", NONE), g(3, "stride", ONE), g(4, "axis", num(0)))


@prim("lax.dynamic_slice_in_dim")
def _dyn_slice_in_dim(a, kw):
    x = a[0]
    g = lambda i, n, d: a[i] if len(a) > i else kw.get(n, d)
    st, sz = g(1, "start_index", None), g(2, "slice_size", None)
    return _dimslice(x, st, add(st, sz), ONE, g(3, "axis", num(0)))


@prim("np.take")
def _take(a, kw):
    _only(kw, "axis", "indices")
    i = a[1] if len(a) > 1 else kw.get("indices")
    ax = a[2] if len(a) > 2 else kw.get("axis", NONE)
    if ax is NONE:
        if T.rank(a[0]) != 1:
            raise Fail()
        ax = num(0)
    if not is_num(ax) or ax.args[0] < 0:
        raise Fail()
    k = int(ax.args[0])
    return index(a[0], tup([FULL] * k + [i]) if k else i)


@prim("np.swapaxes", "np.moveaxis")
def _swapaxes(a, kw):
    _only(kw)
    if T.rank(a[0]) == 2 and len(a) == 3 and is_num(a[1]) and is_num(a[2]):
        return a[0] if (a[1].args[0] - a[2].args[0]) % 2 == 0 else transpose(a[0])
    raise Fail()


@prim("np.einsum")
def _einsum(a, kw):
    _only(kw)
    if a and a[0].op == "const" and a[0].args[0] == "str":
        p = a[0].args[1].replace(" ", "")
        if p == "ij,j->i":
            return mm(a[1], a[2])
        if p in ("ij,i->j", "i,ij->j"):
            x, y = (a[1], a[2]) if p[0:2] == "ij" else (a[2], a[1])
            return mm(transpose(x), y)
        if p == "i,i->":
            return sum0(mul(a[1], a[2]))
        if p == "ij,jk->ik":
            return mm(a[1], a[2])
    raise Fail()
