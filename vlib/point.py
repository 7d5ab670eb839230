"""Separating points for value numbers.

Two value numbers that the normal form does not identify may still be the same
function.  Before a difference is reported, both value graphs (terms derived
from the source, never the program) are evaluated at generic points: small
sizes, generic data, arbitrary functions for uninterpreted parameters.  Only a
point where both graphs are fully interpreted and clearly differ makes the
difference a violation; agreement proves nothing and leaves it undecided."""
import hashlib
from fractions import Fraction

import numpy as np

from . import kernel as K
from . import term as T
from . import shape as S
from .term import Term, NONE


class Undefined(Exception):
    pass


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "big"))


class Point:
    """env: term -> numpy value.  gen(term, shape) may supply values for other symbols."""

    def __init__(self, env=None, salt=0, sizes=None, gen=None, cplx=False):
        self.env = dict(env or {})
        self.salt = salt
        self.gen = gen
        self.cplx = cplx
        self.memo = {}
        self.sizes = sizes or {}
        self.rising, self.seen = False, {}

    # ------------------------------------------------------------------
    def val(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._val(t)
            self.memo[t] = r
        return r

    def int_(self, t):
        v = self.val(t)
        if np.ndim(v) != 0:
            raise Undefined("array used as an integer")
        f = float(np.real(v))
        if abs(f - round(f)) > 1e-9:
            raise Undefined("non-integer size")
        return int(round(f))

    def shape(self, s):
        out = []
        for d in s:
            out.append(self.int_(d))
        return tuple(out)

    def default(self, t):
        if self.gen is not None:
            v = self.gen(self, t)
            if v is not None:
                return v
        if t in self.sizes:
            return self.sizes[t]
        if t.op == "sym":
            n = t.args[0]
            if n == "inf":
                return np.inf
            if n == "nan":
                return np.nan
            if n == "1j":
                return 1j
            if n == "pi":
                return np.pi
            if n == "key":
                return _hash("key", self.salt)
            if t in T.CTX.opaque and not T.CTX.free_heads:
                raise Undefined("loop state %s" % n)
        r = rng_for(self.salt, t.key)
        sh = T.CTX.shapes.get(t)
        if sh is not None:
            sh = self.shape(sh)
            v = r.randn(*sh)
            if self.cplx and t not in T.CTX.reals and not T.CTX.real:
                v = v + 1j * r.randn(*sh)
            if t in T.CTX.nonneg:
                v = np.abs(v)
            return v
        if t in T.CTX.scalars:
            v = r.randn()
            if t in T.CTX.nonneg:
                v = abs(v) + 0.1
            elif self.cplx and t not in T.CTX.reals and not T.CTX.real:
                v = v + 1j * r.randn()
            return v
        raise Undefined("no value for %s" % T.show(t, 2))

    def opmat(self, op, m, n):
        r = rng_for(self.salt, "op", op.key, m, n)
        A = r.randn(m, n)
        if self.cplx and not T.CTX.real and op not in T.CTX.reals:
            A = A + 1j * r.randn(m, n)
        return A

    def matrix(self, A):
        if A in self.env:
            return self.env[A]
        sh = T.CTX.shapes.get(A)
        if A.op == "sym" and A in K.OPDIMS and sh is not None:
            return self.opmat(A, *self.shape(sh))
        return np.asarray(self.val(A))

    def sub(self, env):
        return type(self)(env=env, salt=self.salt, sizes=self.sizes, gen=self.gen, cplx=self.cplx)

    def comp(self, t):
        """a comprehension over a range, a zip or an array"""
        bv, body, it, conds = t.args
        if it.op == "range":
            n = self.int_(it.args[-1] if len(it.args) == 1 else T.sub(it.args[1], it.args[0]))
            if len(it.args) > 2 and it.args[2] is not T.ONE:
                raise Undefined("stepped range")
        elif it.op == "zip":
            n = min(len(self.val(x)) for x in it.args[0])
        elif it.op == "enumerate":
            n = len(self.val(it.args[0]))
        else:
            n = len(self.val(it))
        out = []
        for k in range(n):
            env = dict(self.env)
            env[bv] = k
            P = self.sub(env)
            if all(bool(P.val(c)) for c in conds):
                out.append(P.val(body))
        if out and len({np.shape(x) for x in out if not isinstance(x, tuple)}) == 1 and not any(isinstance(x, tuple) for x in out):
            return np.stack([np.asarray(x) for x in out])
        return tuple(out)

    def vmapped(self, t):
        body, used, oa = t.args
        ax = self.int_(oa)
        vals = [np.asarray(self.val(x)) for _, _, x in used]
        ks = [self.int_(k) for _, k, _ in used]
        n = vals[0].shape[ks[0]]
        bound = {b for b, _, _ in used}
        free = {x for x in self.env}
        out = []
        for i in range(n):
            env = {k: v for k, v in self.env.items() if k in free}
            for (b, _, _), v, k in zip(used, vals, ks):
                env[b] = np.take(v, i, axis=k)
            out.append(self.sub(env).val(body))
        return np.stack([np.asarray(x) for x in out], axis=ax)

    def ix(self, i):
        if i.op == "tuple":
            return tuple(self.ix(x) for x in i.args[0])
        if i.op == "slice":
            return slice(*[None if x is NONE else self.int_(x) for x in i.args])
        if i is NONE:
            return None
        if i.op == "const" and i.args[0] == "ellipsis":
            return Ellipsis
        v = self.val(i)
        if isinstance(v, tuple):
            return tuple(x if isinstance(x, (int, np.integer)) else np.asarray(x).astype(int) if np.asarray(x).dtype != bool else np.asarray(x) for x in v)
        if np.ndim(v) == 0 and not isinstance(v, (bool, np.bool_)):
            return self.int_(i)
        v = np.asarray(v)
        if v.dtype == bool:
            return v
        if np.any(np.abs(v - np.round(np.real(v))) > 1e-9):
            raise Undefined("non-integer index")
        return np.round(np.real(v)).astype(int)

    def shp(self, t):
        """shape argument"""
        if t.op == "tuple":
            return tuple(self.int_(x) for x in t.args[0])
        if t.op == "shape":
            return tuple(np.shape(self.val(t.args[0])))
        v = self.val(t)
        if isinstance(v, tuple):
            return tuple(int(x) for x in v)
        return (self.int_(t),)

    def _val(self, t):
        with np.errstate(all="ignore"):
            return self._val1(t)

    def _val1(self, t):
        if t in self.env:
            return self.env[t]
        o = t.op
        a = t.args
        V = self.val
        if o == "num":
            c = a[0]
            return int(c) if c.denominator == 1 else float(c)
        if o == "const":
            if a[0] == "bool":
                return bool(a[1])
            raise Undefined("constant %r" % (a[1],))
        if o == "sym":
            return self.default(t)
        if o == "sum":
            r = 0
            for m, c in a[0]:
                r = r + V(m) * (int(c) if c.denominator == 1 else float(c))
            return r
        if o == "prod":
            r = 1
            for f, e in a[0]:
                b = V(f)
                if e.denominator == 1:
                    k = int(e)
                    b = b * 1.0 if k < 0 else b
                    r = r * (np.asarray(b) ** k if k != 1 else b)
                else:
                    b = np.asarray(b)
                    if not np.iscomplexobj(b) and np.any(b < 0):
                        raise Undefined("root of a negative number")
                    r = r * b ** float(e)
            return r
        if o == "bigmul":
            return V(a[0]) * V(a[1])
        if o == "abs":
            return np.abs(V(a[0]))
        if o == "conj":
            return np.conj(V(a[0]))
        if o == "real":
            return np.real(V(a[0]))
        if o == "imag":
            return np.imag(V(a[0]))
        if o == "T":
            return np.transpose(V(a[0]))
        if o == "mm":
            r = V(a[0])
            for x in a[1:]:
                r = np.matmul(r, V(x)) if np.ndim(r) and np.ndim(V(x)) else r * V(x)
            return r
        if o == "n2":
            return float(np.sum(np.abs(V(a[0])) ** 2))
        if o == "vdot":
            return np.vdot(V(a[0]), V(a[1]))
        if o == "app":
            return self.app(a[0], a[1], V(a[2]))
        if o == "cmp":
            k = a[0]
            if k == "eqv":
                return self.eqv(a[1], a[2])
            x, y = V(a[1]), V(a[2])
            if np.iscomplexobj(x) or np.iscomplexobj(y):
                if np.any(np.abs(np.imag(x)) > 1e-12) or np.any(np.abs(np.imag(y)) > 1e-12):
                    if k == "eq":
                        return np.equal(x, y)
                    raise Undefined("ordering of complex numbers")
                x, y = np.real(x), np.real(y)
            d = np.asarray(x, float) - np.asarray(y, float)
            if np.any(np.isnan(d)):
                raise Undefined("comparison with nan")
            tiny = np.abs(d) < 1e-12
            if k == "lt":
                return (d < 0) & ~tiny
            if k == "le":
                return (d < 0) | tiny
            return tiny
        if o in ("and", "or"):
            r = V(a[0][0])
            for x in a[0][1:]:
                r = np.logical_and(r, V(x)) if o == "and" else np.logical_or(r, V(x))
            return r
        if o == "not":
            return np.logical_not(V(a[0]))
        if o == "ite":
            c = V(a[0])
            if np.ndim(c) == 0:
                return V(a[1]) if c else V(a[2])
            return np.where(c, V(a[1]), V(a[2]))
        if o in ("max", "min"):
            f = np.maximum if o == "max" else np.minimum
            r = V(a[0][0])
            for x in a[0][1:]:
                r = f(r, V(x))
            return r
        if o in ("exp", "log", "cos", "sin", "sign"):
            return getattr(np, o)(V(a[0]))
        if o == "pow":
            return np.asarray(V(a[0]), float) ** V(a[1])
        if o == "floordiv":
            return np.floor_divide(V(a[0]), V(a[1]))
        if o == "mod":
            return np.mod(V(a[0]), V(a[1]))
        if o == "idx":
            b = a[0]
            if b.op == "call" or b.op == "lamres":
                r = self.call(b)
                if isinstance(r, tuple):
                    return r[self.int_(a[1])]
                return np.asarray(r)[self.ix(a[1])]
            v = V(b)
            if isinstance(v, tuple):
                return v[self.ix(a[1])]
            v = np.asarray(v)
            i = self.ix(a[1])
            try:
                return v[i]
            except IndexError as e:
                raise Undefined(str(e))
        if o == "tuple":
            return tuple(V(x) for x in a[0])
        if o == "array":
            return np.array(V(a[0]))
        if o == "concat":
            parts = V(a[0])
            ax = self.int_(a[1]) if len(a) > 1 and a[1] is not NONE else 0
            parts = [np.atleast_1d(p) for p in parts]
            return np.concatenate(parts, axis=ax)
        if o == "hstack":
            return np.hstack([np.asarray(p) for p in V(a[0])])
        if o == "empty":
            return np.full(self.shp(a[0]), np.nan)
        if o == "zeros":
            return np.zeros(self.shp(a[0]))
        if o == "ones":
            return np.ones(self.shp(a[0]))
        if o == "eye":
            return np.eye(self.int_(a[0]))
        if o == "arange":
            return np.arange(*[self.int_(x) for x in a])
        if o == "sort":
            return np.sort(V(a[0]))
        if o == "argsort":
            return np.argsort(V(a[0]), kind="stable")
        if o == "argmax":
            return int(np.argmax(V(a[0])))
        if o == "argmin":
            return int(np.argmin(V(a[0])))
        if o == "cumsum":
            return np.cumsum(V(a[0]))
        if o == "flip":
            return np.asarray(V(a[0]))[::-1]
        if o == "ravel":
            return np.ravel(V(a[0]))
        if o == "reshape":
            return np.reshape(V(a[0]), self.shp(a[1]))
        if o == "sum0":
            return np.sum(V(a[0]))
        if o == "bsum":
            return np.sum(V(a[0]), axis=0)
        if o == "mean0":
            return np.mean(V(a[0]))
        if o in ("sumax", "meanax"):
            f = np.sum if o == "sumax" else np.mean
            ax = tuple(V(a[1])) if a[1].op == "tuple" else self.int_(a[1])
            return f(V(a[0]), axis=ax, keepdims=bool(V(a[2])) if len(a) > 2 else False)
        if o in ("max0", "min0", "any0", "all0"):
            return getattr(np, o[:3])(V(a[0]))
        if o == "norm1":
            return np.sum(np.abs(V(a[0])))
        if o == "norminf":
            return np.max(np.abs(V(a[0])))
        if o == "dim":
            return np.shape(V(a[0]))[self.int_(a[1])]
        if o == "size":
            return np.size(V(a[0]))
        if o == "ndim":
            return np.ndim(V(a[0]))
        if o == "shape":
            return tuple(np.shape(V(a[0])))
        if o == "scatter":
            n, I, v = self.int_(a[0]), self.ix(a[1]), V(a[2])
            r = np.zeros(n, dtype=np.result_type(np.asarray(v), float))
            r[I] = v
            return r
        if o in ("cols", "col"):
            A = self.matrix(a[0])
            i = self.ix(a[1])
            return A[:, i]
        if o == "unit":
            r = np.zeros(self.int_(a[0]))
            r[self.int_(a[1])] = 1
            return r
        if o == "comp":
            return self.comp(t)
        if o == "bigsum":
            v = self.comp(t)
            r = 0
            for x in v:
                r = r + x
            return r
        if o == "vmapped":
            return self.vmapped(t)
        if o == "largest":
            x, k = V(a[0]), self.int_(a[1])
            return np.argsort(-np.abs(x), kind="stable")[:k]
        if o in ("at_set", "at_add", "at_multiply", "at_mul", "at_min", "at_max"):
            b, v = np.array(V(a[0])), V(a[2])
            b = b.astype(np.result_type(b, np.asarray(v)))
            i = self.ix(a[1])
            if isinstance(i, tuple) and len(i) == b.ndim and all(isinstance(q, np.ndarray) and q.dtype != bool for q in i):
                # updates outside the array are dropped
                ok = np.all([(q < n) & (q >= -n) for q, n in zip(np.broadcast_arrays(*i), b.shape)], axis=0)
                if not np.all(ok):
                    i = tuple(q[ok] for q in np.broadcast_arrays(*i))
                    v = v if np.ndim(v) == 0 else np.broadcast_to(v, ok.shape)[ok]
            if o == "at_set":
                b[i] = v
            elif o == "at_add":
                np.add.at(b, i, v)
            elif o in ("at_multiply", "at_mul"):
                np.multiply.at(b, i, v)
            elif o == "at_min":
                np.minimum.at(b, i, v)
            else:
                np.maximum.at(b, i, v)
            return b
        if o == "call":
            r = self.call(t)
            return r
        if o == "apply":
            return self.apply(t)
        if o == "uf":
            return self.uf(t)
        if t in T.CTX.scalars or t in T.CTX.shapes:
            return self.default(t)
        if o == "along":
            bv, body, ax, x = a
            free = dict(self.env)

            def col(c):
                env = dict(free)
                env[bv] = c
                return np.asarray(self.sub(env).val(body))
            return np.apply_along_axis(col, self.int_(ax), np.asarray(V(x)))
        if o == "idwt":
            lo, hi = np.asarray(V(a[2]), float), np.asarray(V(a[3]), float)
            ca, cd = np.asarray(V(a[0])), np.asarray(V(a[1]))
            if ca.shape != cd.shape or ca.ndim != 1:
                raise Undefined("coefficients of different lengths")
            n = 2 * len(ca)
            out = np.zeros(n)
            for k in range(len(ca)):
                for j in range(len(lo)):
                    out[(2 * k + j) % n] += ca[k] * lo[j]
                for j in range(len(hi)):
                    out[(2 * k + j) % n] += cd[k] * hi[j]
            return out
        if o == "attr" and a[0].op == "call" and a[0].args[0] == "wt.to_wavelet" and a[0].args[1][0].op == "const" and a[0].args[1][0].args[1] in FILTERS:
            lo = np.array(FILTERS[a[0].args[1][0].args[1]])
            hi = lo[::-1] * (-1.0) ** (np.arange(len(lo)) + 1)
            got = {"rec_lo": lo, "rec_hi": hi, "dec_lo": lo[::-1], "dec_hi": hi[::-1], "dec_len": len(lo), "rec_len": len(lo)}.get(a[1])
            if got is not None:
                return got
        if o == "attr" and a[0].op == "call" and a[0].args[0] == "np.finfo" and a[1] in ("eps", "tiny", "max", "min"):
            w = T.show(a[0], 5)
            return float(getattr(np.finfo(np.float32 if "32" in w else np.float64), a[1]))
        raise Undefined("construct %s" % o)

    def eqv(self, x, y):
        if x.op == "const" and y.op == "const":
            return x is y
        if x.op == "tuple" and y.op == "tuple":
            if len(x.args[0]) != len(y.args[0]):
                return False
            return bool(np.all(np.equal(self.val(x), self.val(y))))
        if x.op in ("shape", "tuple") and y.op in ("shape", "tuple"):
            return tuple(self.val(x)) == tuple(self.val(y))
        if x.op in ("lam", "attr", "fn") and y.op in ("lam", "attr", "fn"):
            return x is y          # function objects compare by identity
        raise Undefined("equality of %s and %s" % (x.op, y.op))

    def app(self, op, d, v):
        sh = T.CTX.shapes.get(op)
        if sh is None:
            raise Undefined("operator of unknown shape")
        m, n = self.shape(sh)
        A = self.opmat(op, m, n)
        if d == "trans":
            A = A.conj().T
        v = np.asarray(v)
        if v.ndim == 0:
            v = np.full(A.shape[1], v)
        if v.shape[0] != A.shape[1]:
            raise Undefined("operator applied to the wrong size")
        return A @ v

    def uf(self, t):
        """uninterpreted function of the arguments: uf(name, kind/shape, args)"""
        name, sh, args = t.args
        vals = [self.val(x) for x in args]
        key = [np.round(np.asarray(v, dtype=complex), 9).tolist() for v in vals]
        r = rng_for(self.salt, "uf", name, key)
        if sh == ():
            if self.rising:
                # an arbitrary function whose values rise over a few visited points, then fall below all before
                k = len(self.seen)
                return self.seen.setdefault((name, repr(key)), k % 5 - 6.0 * (k // 5))
            return r.randn()
        s = self.shape(sh)
        return r.randn(*s)

    def apply(self, t):
        raise Undefined("uninterpreted function")

    def call(self, t):
        name, args, kw = t.args
        kw = dict(kw)
        f = CALLS.get(name)
        if f is None:
            raise Undefined("external %s" % name)
        try:
            return f(self, args, kw)
        except Undefined:
            raise
        except Exception as e:
            raise Undefined("%s: %s" % (name, e))


def _np(f, *kws):
    def g(P, args, kw):
        for k in kw:
            if k not in kws and k != "dtype":
                raise Undefined("keyword %s" % k)
        kk = {}
        for k, v in kw.items():
            if k == "dtype":
                continue
            kk[k] = conv(P, v)
        return f(*[conv(P, x) for x in args], **kk)
    return g


def conv(P, v):
    if v is NONE:
        return None
    if v.op == "const" and v.args[0] == "str":
        return v.args[1]
    if v.op == "num" and v.args[0].denominator == 1:
        return int(v.args[0])
    r = P.val(v)
    return r


def full_like(x, v, **kw):
    return np.full(np.shape(x), float(v))


def segment_sum(x, ids, num_segments=None):
    x, ids = np.asarray(x), np.asarray(ids).astype(int)
    n = num_segments if num_segments is not None else ids.max() + 1
    r = np.zeros(n)
    np.add.at(r, ids, x)
    return r


def fwht(x):
    x = np.array(x, float)
    n = len(x)
    H = np.array([[1.0]])
    while H.shape[0] < n:
        H = np.block([[H, H], [H, -H]])
    return H @ x


def tri(lower, trans):
    def f(L, b):
        M = np.asarray(L)
        M = np.tril(M) if lower else np.triu(M)
        return np.linalg.solve(M.T if trans else M, b)
    return f


CALLS = {}
for _n in ("full", "diff", "diag", "outer", "tile", "repeat", "roll", "broadcast_to", "squeeze", "expand_dims", "prod",
           "count_nonzero", "sign", "log2", "log10", "ceil", "floor", "round", "sqrt", "exp", "cumsum", "sum", "mean",
           "max", "min", "any", "all", "argmax", "argmin", "argsort", "sort", "isnan", "isinf", "isfinite", "nonzero", "linspace", "meshgrid",
           "median", "std", "var", "trace", "tril", "triu", "eye", "unique", "setdiff1d", "union1d", "intersect1d", "flip", "concatenate",
           "hstack", "vstack", "stack", "column_stack", "transpose", "reshape", "where", "take", "dot", "vdot", "matmul", "tensordot",
           "einsum", "kron", "log1p", "expm1", "tanh", "arctan", "arctan2", "angle", "swapaxes", "moveaxis", "clip", "power", "hypot",
           "searchsorted", "bincount", "ravel", "nan_to_num", "isclose", "allclose", "fliplr", "flipud", "convolve", "pad", "inner", "mod",
           "floor_divide", "remainder", "ndim", "size", "shape", "full_like", "ones_like", "zeros_like", "atleast_2d", "apply_along_axis",
           "logical_xor", "cross", "arccos", "arcsin", "rad2deg", "deg2rad", "ptp", "amin", "amax", "identity", "interp"):
    if hasattr(np, _n):
        CALLS["np." + _n] = _np(getattr(np, _n), "axis", "keepdims", "mode", "shape", "offset", "k", "a_min", "a_max", "indices", "ord", "prepend", "append", "decimals",
                                "reps", "repeats", "newshape", "num", "fill_value", "total_repeat_length", "size", "invert", "initial")
CALLS["np.unravel_index"] = _np(lambda i, s: tuple(int(x) for x in np.unravel_index(int(i), tuple(int(x) for x in s))))
CALLS["np.full_like"] = _np(full_like)
CALLS["jax.ops.segment_sum"] = _np(segment_sum, "num_segments")
CALLS["linalg.norm"] = _np(np.linalg.norm, "ord", "axis", "keepdims")
CALLS["linalg.inv"] = _np(np.linalg.inv)
CALLS["linalg.pinv"] = _np(np.linalg.pinv)
CALLS["linalg.det"] = _np(np.linalg.det)
CALLS["linalg.solve"] = _np(np.linalg.solve)
CALLS["linalg.slogdet"] = _np(lambda a: tuple(np.linalg.slogdet(a)))
CALLS["linalg.lstsq"] = _np(lambda a, b, rcond=None: tuple(np.linalg.lstsq(a, b, rcond=None)), "rcond")
CALLS["linalg.eigh"] = _np(lambda a: tuple(np.linalg.eigh(a)))
CALLS["linalg.svd"] = _np(lambda a, full_matrices=True, compute_uv=True: np.linalg.svd(a, full_matrices, compute_uv) if not compute_uv
                          else tuple(np.linalg.svd(a, full_matrices, compute_uv)), "full_matrices", "compute_uv")


def _qr(a, mode="reduced"):
    r = np.linalg.qr(a, mode)
    return r if mode == "r" else tuple(r)


CALLS["linalg.qr"] = _np(_qr, "mode")


def _chol(a, lower=None):
    L = np.linalg.cholesky(a)
    return L


CALLS["linalg.cholesky"] = _np(_chol)
CALLS["nimble.dsp.fwht"] = _np(fwht)
CALLS["np.iscomplexobj"] = _np(lambda x: bool(np.iscomplexobj(x)))
CALLS["np.isrealobj"] = _np(lambda x: not np.iscomplexobj(x))
CALLS["np.percentile"] = _np(np.percentile)
CALLS["np.diag_indices"] = _np(lambda n: tuple(np.diag_indices(n)))
CALLS["np.append"] = _np(np.append)
CALLS["np.linspace"] = _np(lambda a, b, num=50, endpoint=True: np.linspace(a, b, int(round(float(num))), endpoint=bool(endpoint)), "num", "endpoint")
CALLS["np.insert"] = _np(np.insert, "axis")
for _n in ("fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "fftn", "ifftn", "fftshift", "ifftshift"):
    CALLS["fft." + _n] = CALLS["np.fft." + _n] = _np(getattr(np.fft, _n), "n", "axis", "axes", "s", "norm")
CALLS["math.ceil"] = _np(lambda x: int(np.ceil(x - 1e-12)))
CALLS["np.trunc"] = _np(np.trunc)
CALLS["math.floor"] = _np(lambda x: int(np.floor(x + 1e-12)))
CALLS["math.log"] = _np(lambda x, b=None: np.log(x) if b is None else np.log(x) / np.log(b))
CALLS["linalg.dft"] = _np(lambda n: np.fft.fft(np.eye(int(n))))
CALLS["np.deg2rad"] = _np(np.deg2rad)
CALLS["np.column_stack"] = _np(lambda x: np.column_stack(x))
CALLS["wt.next_pow_of_2"] = _np(lambda n: 1 << (int(n) - 1).bit_length())
CALLS["wt.dwt_max_level"] = _np(lambda n, L: int(np.floor(np.log2(n / (L - 1)))) if n >= L - 1 else 0)
CALLS["math.log2"] = _np(np.log2)
CALLS["builtins.round"] = _np(lambda x: int(round(x)))
CALLS["builtins.len"] = _np(len)
CALLS["math.sqrt"] = _np(np.sqrt)
CALLS["jax.scipy.linalg.solve_triangular"] = None
CALLS.pop("jax.scipy.linalg.solve_triangular")


def _solve_tri(P, args, kw):
    A, b = P.val(args[0]), P.val(args[1])
    lower = bool(P.val(kw["lower"])) if "lower" in kw else False
    tr = kw.get("trans", T.ZERO)
    tr = conv(P, tr)
    M = np.tril(A) if lower else np.triu(A)
    if tr in (1, "T"):
        M = M.T
    elif tr in (2, "C"):
        M = M.conj().T
    elif tr not in (0, "N"):
        raise Undefined("trans")
    return np.linalg.solve(M, b)


CALLS["linalg.solve_triangular"] = _solve_tri


def _key(k):
    return int(np.asarray(k).reshape(-1)[0])


def _hash(*k):
    return int.from_bytes(hashlib.sha256(repr(k).encode()).digest()[:6], "big")


# synthesis low pass filters of three orthogonal wavelets
FILTERS = {"haar": [2 ** -0.5, 2 ** -0.5],
           "db2": [0.48296291314469025, 0.836516303737469, 0.22414386804185735, -0.12940952255092145],
           "db4": [0.23037781330885523, 0.7148465705525415, 0.6308807679295904, -0.02798376941698385, -0.18703481171888114,
                   0.030841381835986965, 0.032883011666982945, -0.010597401784997278]}


def _draw(name, pos, gen):
    """a possible outcome of a random generator: a fixed function of the key and the arguments"""
    def g(P, args, kw):
        args = list(args)
        for i, k in enumerate(pos):
            if k in kw:
                while len(args) <= i:
                    args.append(None)
                args[i] = kw[k]
        v = []
        for i, k in enumerate(pos):
            x = args[i] if i < len(args) else None
            if x is None or x is NONE:
                v.append(None)
            elif k == "shape":
                v.append(P.shp(x))
            else:
                v.append(conv(P, x))
        r = rng_for("draw", P.salt, name, _key(v[0]))
        return gen(r, *v[1:])
    return g


def _between(r, sh, lo, hi):
    lo, hi = (0.0 if lo is None else lo), (1.0 if hi is None else hi)
    return lo + (hi - lo) * r.rand(*(sh or ()))


def _perm(r, x, axis=None):
    if np.ndim(x) == 0:
        return r.permutation(int(x))
    return r.permutation(np.asarray(x))


def _choice(r, a, sh, rep=None, p=None):
    a = np.arange(int(a)) if np.ndim(a) == 0 else np.asarray(a)
    return r.choice(a, size=sh, replace=True if rep is None else bool(rep))


_D = {
    "normal": (("key", "shape"), lambda r, sh: r.randn(*(sh or ()))),
    "uniform": (("key", "shape", "dtype", "minval", "maxval"), lambda r, sh, dt, lo, hi: _between(r, sh, lo, hi)),
    "bernoulli": (("key", "p", "shape"), lambda r, p, sh: r.rand(*(sh or ())) < (0.5 if p is None else p)),
    "rademacher": (("key", "shape"), lambda r, sh: r.choice([-1, 1], size=sh or ())),
    "laplace": (("key", "shape"), lambda r, sh: r.laplace(size=sh or ())),
    "randint": (("key", "shape", "minval", "maxval"), lambda r, sh, lo, hi: r.randint(int(lo), int(hi), size=sh or ())),
    "permutation": (("key", "x", "axis"), _perm),
    "choice": (("key", "a", "shape", "replace", "p"), _choice),
}
for _n, (_p, _g) in _D.items():
    CALLS["random." + _n] = _draw(_n, _p, _g)
CALLS["random.split"] = _np(lambda k, num=2: np.array([_hash("split", _key(k), int(num), i) for i in range(int(num))]), "num")
CALLS["random.PRNGKey"] = CALLS["random.key"] = _np(lambda s: _hash("seed", int(s)))
CALLS["random.fold_in"] = _np(lambda k, i: _hash("fold", _key(k), int(i)))


def _assign(c, maximize=False):
    from scipy.optimize import linear_sum_assignment
    return tuple(linear_sum_assignment(np.asarray(c), bool(maximize)))


CALLS["scipy.optimize.linear_sum_assignment"] = _np(_assign, "maximize")


def differ(a, b, tol=1e-6):
    """clear difference of two values; None when not comparable"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
            return True
        rs = [differ(x, y, tol) for x, y in zip(a, b)]
        return True if any(r is True for r in rs) else (None if any(r is None for r in rs) else False)
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return None
    if np.any(np.isnan(a)) or np.any(np.isnan(b)):
        return None
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return True
    if a.dtype == bool and b.dtype == bool:
        return bool(np.any(a != b))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if np.any(fa != fb):
        return True
    inf = ~fa
    if np.any(a[inf] != b[inf]):
        return True
    d = np.abs(a - b)[fa]
    s = 1 + np.maximum(np.abs(a[fa]), np.abs(b[fa]))
    if d.size and np.max(d / s) > tol:
        return True
    return False


def separate(a, b, points, tol=1e-6):
    """(verdict, text): 'differ' with the first separating point, 'agree' with
    the number of points, or 'none' with the reason"""
    n, why = 0, "no point"
    for P in points:
        try:
            va, vb = P.val(a), P.val(b)
        except Undefined as e:
            why = str(e)
            continue
        except Exception as e:      # noqa
            why = "%s: %s" % (type(e).__name__, e)
            continue
        d = differ(va, vb, tol)
        if d is None:
            why = "undefined value"
            continue
        if d:
            return "differ", (P, va, vb)
        n += 1
    if n:
        return "agree", n
    return "none", why


def fmt(v, k=6):
    if isinstance(v, tuple):
        return "(" + ", ".join(fmt(x) for x in v) + ")"
    v = np.asarray(v)
    if v.size == 1:
        return "%.6g" % v.reshape(-1)[0] if not np.iscomplexobj(v) else "%.4g%+.4gj" % (v.reshape(-1)[0].real, v.reshape(-1)[0].imag)
    return "[" + ", ".join(fmt(x) for x in v.reshape(-1)[:k]) + (", ..." if v.size > k else "") + "]"
