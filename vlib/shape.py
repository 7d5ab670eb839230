"""Symbolic shape inference on value terms (dims are Terms)."""
from . import term as T

_memo = {}


def clear():
    _memo.clear()


def shape_of(t):
    """tuple of dim Terms, or None when unknown"""
    if t in T.CTX.shapes:
        return T.CTX.shapes[t]
    if t in _memo:
        return _memo[t]
    _memo[t] = None
    s = _shape(t)
    _memo[t] = s
    return s


def bcast(shapes):
    out = ()
    for s in shapes:
        if s is None:
            return None
        n = max(len(out), len(s))
        a = (T.ONE,) * (n - len(out)) + tuple(out)
        b = (T.ONE,) * (n - len(s)) + tuple(s)
        r = []
        for x, y in zip(a, b):
            if x is y:
                r.append(x)
            elif x is T.ONE:
                r.append(y)
            elif y is T.ONE:
                r.append(x)
            else:
                return None
        out = tuple(r)
    return out


ELEMENTWISE = {"abs", "conj", "real", "imag", "sqrt", "exp", "log", "sign", "cos", "sin",
               "not", "arccos"}


def _shape(t):
    o, a = t.op, t.args
    if o == "num" or t is T.IMAG or t is T.INF:
        return ()
    if o == "const":
        return () if a[0] == "bool" else None
    if o == "sym":
        return () if t in T.CTX.scalars else None
    if o == "sum":
        return bcast([shape_of(m) for m, _ in a[0]])
    if o == "prod":
        return bcast([shape_of(f) for f, _ in a[0]])
    if o in ELEMENTWISE:
        return shape_of(a[0])
    if o in ("max", "min", "and", "or"):
        return bcast([shape_of(x) for x in a[0]])
    if o == "cmp":
        return bcast([shape_of(a[1]), shape_of(a[2])])
    if o in T.SCALAR_CALLS:
        return ()
    if o == "T":
        s = shape_of(a[0])
        return None if s is None else tuple(reversed(s))
    if o == "mm":
        s = shape_of(a[0])
        if s is None:
            return None
        for x in a[1:]:
            r = shape_of(x)
            if r is None:
                return None
            if len(s) == 0 or len(r) == 0:
                return None
            if len(r) == 1:
                s = s[:-1]
            elif len(r) == 2 and len(s) in (1, 2):
                s = s[:-1] + (r[1],)
            else:
                return None
        return s
    if o == "ite":
        x, y = shape_of(a[1]), shape_of(a[2])
        if x == y:
            c = shape_of(a[0])
            if c == x or not T.maybe_array(a[0]):
                return x
            if c is None:
                return None if x == () else x
            return bcast([c, x])
        return bcast([shape_of(a[0]), x, y]) if x is not None and y is not None else None
    if o == "app":
        op, d, x = a
        from . import prims
        xs = shape_of(x)
        s = T.CTX.shapes.get(op)
        if s is not None and len(s) == 2:
            out, inn = (s[0], s[1]) if d == "times" else (s[1], s[0])
            out = out if isinstance(out, tuple) else (out,)
            ni = len(inn) if isinstance(inn, tuple) else 1
            if xs is None or len(xs) <= ni:
                return out
            return out + tuple(xs[ni:])
        return None
    if o == "idx" and a[0].op == "call" and a[0].args[0] == "linalg.qr" and T.is_num(a[1]):
        s = shape_of(a[0].args[1][0])          # reduced factors of a tall matrix
        if s is None or len(s) != 2:
            return None
        return s if a[1] is T.ZERO else (s[1], s[1])
    if o == "idx" and a[0].op == "call" and T.is_num(a[1]) and a[0].args[0] == "linalg.lstsq":
        s, b = shape_of(a[0].args[1][0]), shape_of(a[0].args[1][1])
        if s is None or b is None or len(s) != 2 or a[1] is not T.ZERO:
            return None
        return (s[1],) + tuple(b[1:])
    if o == "idx" and a[0].op == "call" and T.is_num(a[1]) and a[0].args[0] == "linalg.svd":
        s = shape_of(a[0].args[1][0])
        if s is None or len(s) != 2 or s[0] is not s[1] or (len(a[0].args[1]) > 2 and a[0].args[1][2] is T.FALSE):
            return None
        return (s[0],) if a[1] is T.ONE else s
    if o == "idx":
        from . import prims
        return prims.index_shape(shape_of(a[0]), a[1])
    if o in ("zeros", "ones", "empty"):
        return _shape_arg(a[0])
    if o == "full":
        return _shape_arg(a[0])
    if o in ("at_set", "at_add", "at_mul"):
        return shape_of(a[0])
    if o == "arange":
        if len(a) == 1:
            return (a[0],)
        if len(a) == 2:
            return (T.sub(a[1], a[0]),)
        if len(a) == 3 and all(T.is_num(x) for x in a) and a[2].args[0] != 0:
            import math
            return (T.num(max(0, math.ceil((a[1].args[0] - a[0].args[0]) / a[2].args[0]))),)
        if len(a) == 3 and T.is_num(a[2]) and abs(a[2].args[0]) == 1:
            return (T.scale(T.sub(a[1], a[0]), a[2].args[0]),)
        return None
    if o == "ravel":
        s = shape_of(a[0])
        if s is None:
            return None
        return (T.mul(*s) if s else T.ONE,)
    if o == "reshape":
        return _shape_arg(a[1])
    if o == "concat":
        if len(a) > 1 and not T.is_num(a[1]):
            return None
        ss = [shape_of(x) for x in a[0].args[0]] if a[0].op == "tuple" else None
        if ss and len(a) < 2 and any(s == () for s in ss) and all(s is not None and len(s) <= 1 for s in ss):
            ss = [s or (T.ONE,) for s in ss]      # np.append of a scalar
        if not ss or any(s is None or len(s) == 0 for s in ss):
            return None
        k = int(a[1].args[0]) % len(ss[0]) if len(a) > 1 else 0
        if any(len(s) != len(ss[0]) or any(x is not y for j, (x, y) in enumerate(zip(s, ss[0])) if j != k) for s in ss):
            return None
        return tuple(ss[0][:k]) + (T.add(*[s[k] for s in ss]),) + tuple(ss[0][k + 1:])
    if o == "hstack" and a[0].op == "tuple":
        ss = [shape_of(x) for x in a[0].args[0]]
        if not ss or any(s is None for s in ss):
            return None
        ss = [s or (T.ONE,) for s in ss]
        k = 0 if len(ss[0]) == 1 else 1
        if any(len(s) != len(ss[0]) or (k and s[0] is not ss[0][0]) for s in ss):
            return None
        return tuple(ss[0][:k]) + (T.add(*[s[k] for s in ss]),) + tuple(ss[0][k + 1:])
    if o in ("scatter", "unit"):
        return (a[0],)
    if o == "cols":
        s, i = shape_of(a[0]), shape_of(a[1])
        return (s[0], i[0]) if s and i else None
    if o == "col":
        s = shape_of(a[0])
        return (s[0],) if s else None
    if o == "dwt":
        s = shape_of(a[0])
        if s is None or len(s) != 1:
            return None
        return (half(s[0]),)
    if o == "idwt":
        s = shape_of(a[0])
        if s is None or len(s) != 1:
            return None
        return (T.scale(s[0], 2),)
    if o == "sort" or o == "argsort" or o == "cumsum" or o == "flip":
        return shape_of(a[0])
    if o == "largest":      # largest_indices(x, k)
        return (a[1],)
    if o == "eye":
        return (a[0], a[0])
    if o == "sumax":
        s = shape_of(a[0])
        ax = a[1]
        if s is None or not T.is_num(ax):
            return None
        i = int(ax.args[0])
        if -len(s) <= i < len(s):
            i %= len(s)
            if len(a) > 2 and a[2] is T.TRUE:
                return s[:i] + (T.ONE,) + s[i + 1:]
            return s[:i] + s[i + 1:]
        return None
    if o == "meanax":
        return _reduced(shape_of(a[0]), a[1], len(a) > 2 and a[2] is T.TRUE)
    if o == "bsum":
        s = shape_of(a[0])
        return s[1:] if s else None
    if o == "call":
        return _call_shape(a[0], a[1], dict(a[2]))
    if o == "along":
        bv, body, ax, x = a
        xs, bs = shape_of(x), shape_of(body)
        if xs is None or bs is None or not T.is_num(ax):
            return None
        k = int(ax.args[0]) % len(xs)
        return xs[:k] + tuple(bs) + xs[k + 1:]
    if o == "array":
        if a[0].op == "tuple":
            it = a[0].args[0]
            s0 = shape_of(it[0]) if it else ()
            if it and all(shape_of(x) == s0 for x in it) and s0 is not None:
                return (T.num(len(it)),) + s0
            if it and all(T.is_scalar(x) or shape_of(x) == () for x in it):
                return (T.num(len(it)),)
        return None
    if o == "vmapped":
        body, used, oa = a
        bs = shape_of(body)
        b0, ax, t = used[0]
        ts = shape_of(t)
        if bs is None or ts is None or not T.is_num(ax) or not T.is_num(oa):
            return None
        v = ts[int(ax.args[0])]
        k = int(oa.args[0])
        return bs[:k] + (v,) + bs[k:]
    if o == "call" and a[0].endswith("BCOO.fromdense"):
        return shape_of(a[1][0])
    if o in ("draw",):
        return _shape_arg(a[2])
    return None


def half(d):
    """length of one half of an even dimension"""
    if all(c.denominator == 1 and c % 2 == 0 for c in T._as_poly(d).values()):
        return T.scale(d, T.Fraction(1, 2))
    from . import kernel
    return kernel.fdiv_norm(T.mk("floordiv", T.add(d, T.ONE), T.num(2)))


def _shape_arg(s):
    if s.op == "tuple":
        return tuple(s.args[0])
    if s.op == "shape":
        return shape_of(s.args[0])
    if s.op in ("num", "dim", "sum", "prod", "sym", "size"):
        if s.op == "sym" and s not in T.CTX.scalars:
            return None
        return (s,)
    if s.op in ("max", "min", "call") and shape_of(s) == ():
        return (s,)
    return None


def _ax(x, n):
    k = int(x.args[0])
    return k % n if -n <= k < n else None


def _reduced(s, ax, keep):
    if s is None or not T.is_num(ax):
        return None
    i = int(ax.args[0])
    if not -len(s) <= i < len(s):
        return None
    i %= len(s)
    return s[:i] + ((T.ONE,) if keep else ()) + s[i + 1:]


def _call_shape(name, a, kw):
    N = T.NONE
    if name in ("np.max", "np.min", "np.all", "np.any", "np.argmax", "np.argmin", "np.sum", "np.mean", "np.amax", "np.amin", "np.prod") \
            and not (set(kw) - {"axis", "keepdims"}) and len(a) in (1, 2):
        ax = kw.get("axis", a[1] if len(a) > 1 else N)
        keep = kw.get("keepdims", T.FALSE)
        if ax is N and keep is T.FALSE:
            return ()
        return _reduced(shape_of(a[0]), ax, keep is T.TRUE)
    if name in ("np.sort", "np.argsort", "np.cumsum") and a and (T.is_num(kw.get("axis", T.ZERO))):
        return shape_of(a[0])
    if name in ("np.rad2deg", "np.deg2rad", "np.arccos", "np.log10", "np.log2", "np.angle") and len(a) == 1:
        return shape_of(a[0])
    if name in ("np.percentile", "np.median", "np.quantile") and set(kw) <= {"axis"} and kw.get("axis", N) is N:
        return ()
    if name == "linalg.svd" and len(a) == 3 and a[2] is T.FALSE:
        s = shape_of(a[0])
        return None if s is None or len(s) != 2 else (s[0] if s[0] is s[1] else T.minimum(*s),)
    if name == "np.full" and a:
        return _shape_arg(a[0])
    if name == "np.outer" and len(a) == 2:
        x, y = shape_of(a[0]), shape_of(a[1])
        return (x[0], y[0]) if x and y and len(x) == len(y) == 1 else None
    if name == "np.pad" and len(a) >= 2:
        s = shape_of(a[0])
        if s is None:
            return None
        w = a[1]
        if w.op != "tuple":
            return tuple(T.add(d, T.scale(w, 2)) for d in s)
        it = w.args[0]
        if it and it[0].op == "tuple":
            if len(it) != len(s):
                return None
            return tuple(T.add(d, *p.args[0]) for d, p in zip(s, it))
        return tuple(T.add(d, *it) for d in s)
    if name == "builtins.round" and len(a) == 1:
        return shape_of(a[0])
    if name == "np.diff":
        s = shape_of(a[0])
        if s is None or len(s) != 1 or len(a) > 1 or "n" in kw:
            return None
        d = T.sub(s[0], T.ONE)
        for k in ("prepend", "append"):
            if k in kw:
                q = shape_of(kw[k])
                if q is None:
                    return None
                d = T.add(d, q[0] if q else T.ONE)
        return (d,)
    if name == "np.column_stack" and len(a) == 1 and a[0].op == "tuple":
        ss = [shape_of(x) for x in a[0].args[0]]
        if not ss or any(x is None or len(x) not in (1, 2) for x in ss):
            t = T.mk("call", name, tuple(a), tuple(sorted(kw.items())))
            return (T.mk("dim", t, T.ZERO), T.mk("dim", t, T.ONE))
        return (ss[0][0], T.add(*[x[1] if len(x) == 2 else T.ONE for x in ss]))
    if name == "np.insert":
        s = shape_of(a[0])
        if s is None or len(s) != 1:
            return None
        return (T.add(s[0], T.ONE),)
    if name == "np.repeat":
        s = shape_of(a[0])
        if s is None or "axis" not in kw:
            return None
        k = _ax(kw["axis"], len(s))
        return s[:k] + (T.mul(s[k], a[1]),) + s[k + 1:]
    if name in ("np.roll", "np.nan_to_num", "np.fft.fftshift", "fft.fftshift", "fft.ifftshift", "nimble.dsp.fwht"):
        return shape_of(a[0])
    if name == "np.convolve":
        s, h = shape_of(a[0]), shape_of(a[1])
        mode = a[2] if len(a) > 2 else kw.get("mode", T.const("full"))
        if s is None or h is None or len(s) != 1 or len(h) != 1 or mode.op != "const":
            return None
        m = mode.args[1]
        if m == "full":
            return (T.sub(T.add(s[0], h[0]), T.ONE),)
        if m == "same":
            return s
        return (T.add(T.sub(s[0], h[0]), T.ONE),)
    if name in ("fft.fft", "fft.ifft", "fft.rfft", "fft.irfft"):
        s = shape_of(a[0])
        if s is None:
            return None
        n = a[1] if len(a) > 1 else kw.get("n", N)
        ax = a[2] if len(a) > 2 else kw.get("axis", T.num(-1))
        if not T.is_num(ax):
            return None
        k = _ax(ax, len(s))
        if k is None:
            return None
        if n is N:
            n = s[k]
            if name == "fft.irfft":
                n = T.scale(T.sub(n, T.ONE), 2)
        if name == "fft.rfft":
            n = T.add(T.mk("floordiv", n, T.num(2)), T.ONE)
            from . import kernel
            n = kernel.fdiv_norm(n)
        return s[:k] + (n,) + s[k + 1:]
    if name == "np.expand_dims":
        s = shape_of(a[0])
        ax = a[1] if len(a) > 1 else kw.get("axis")
        if s is None or not T.is_num(ax):
            return None
        k = int(ax.args[0]) % (len(s) + 1)
        return s[:k] + (T.ONE,) + s[k:]
    if name == "lax.conv_general_dilated":
        s, f = shape_of(a[0]), shape_of(a[1])
        if s is None or f is None or len(s) != len(f) or len(a) < 4 or a[3].op != "tuple":
            return None
        pads = a[3].args[0]
        out = [s[0], f[0]]
        for d, k, p in zip(s[2:], f[2:], pads):
            if p.op != "tuple":
                return None
            out.append(T.add(T.sub(T.add(d, *p.args[0]), k), T.ONE))
        return tuple(out)
    if name.startswith("random."):
        pos = {"random.normal": 1, "random.uniform": 1, "random.bernoulli": 2, "random.randint": 1,
               "random.rademacher": 1, "random.laplace": 1, "random.choice": 2}.get(name)
        if name == "random.permutation" and len(a) > 1:
            s = shape_of(a[1])
            return (a[1],) if s == () else s
        if name == "random.split":
            return (a[1] if len(a) > 1 else T.num(2), T.num(2))
        if pos is None:
            return None
        sh = kw.get("shape") or (a[pos] if len(a) > pos else None)
        return () if sh is None else _shape_arg(sh)
    if name == "linalg.solve_triangular" or name == "linalg.solve":
        return shape_of(a[1])
    if name == "np.vstack" and a[0].op == "tuple":
        ss = [shape_of(x) for x in a[0].args[0]]
        if any(s is None for s in ss):
            return None
        ss = [s if len(s) == 2 else (T.ONE,) + tuple(s) for s in ss]
        if any(len(s) != 2 for s in ss):
            return None
        return (T.add(*[s[0] for s in ss]), ss[0][1])
    if name == "np.squeeze" and len(a) == 1 and not kw:
        s = shape_of(a[0])
        if s is None or not all(T.is_num(d) for d in s):
            return None
        return tuple(d for d in s if d is not T.ONE)
    if name == "np.diag":
        s = shape_of(a[0])
        if s is None:
            return None
        return (s[0],) if len(s) == 2 else (s[0], s[0])
    return None
