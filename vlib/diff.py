"""Derivative of a scalar value number with respect to a symbol (reverse
accumulation over the value graph, real arithmetic)."""
from . import term as T
from . import shape as S
from . import prims
from .term import ONE, ZERO, num


class NoRule(Exception):
    pass


def gradient(f, x):
    """term of the gradient of scalar f wrt x"""
    memo = {}

    def dep(t):
        r = memo.get(t)
        if r is None:
            r = T.depends(t, x)
            memo[t] = r
        return r

    acc = []

    def is_scal(t):
        return T.is_scalar(t) or S.shape_of(t) == ()

    def go(t, ct):
        if not dep(t) or ct is ZERO:
            return
        o, a = t.op, t.args
        if t is x:
            acc.append(ct)
            return
        if o == "sum":
            for m, c in a[0]:
                if dep(m):
                    go(m, red(m, T.scale(ct, c)))
            return
        if o == "prod":
            if t.size > 400:
                raise NoRule("large product")
            for f_, e in a[0]:
                if not dep(f_):
                    continue
                rest = T.mul(*[T.power(g, k) for g, k in a[0] if g is not f_])
                d = T.mul(num(e), T.power(f_, e - 1), rest, ct)
                go(f_, red(f_, d))
            return
        if o == "n2":
            go(a[0], T.mul(num(2), ct, a[0]))
            return
        if o == "vdot":
            go(a[0], T.mul(ct, a[1]))
            go(a[1], T.mul(ct, a[0]))
            return
        if o == "sum0":
            y = a[0]
            if y.op == "log" and y.args[0].op == "call" and y.args[0].args[0] == "np.diag":
                z = y.args[0].args[1][0]
                if z.op == "call" and z.args[0] == "linalg.cholesky" and len(z.args[1]) == 1:
                    # log det X = 2 sum log diag chol X ; d log det X = X^{-1}
                    go(z.args[1][0], T.mul(num("1/2") if False else T.num(0.5), ct, T.mk("call", "linalg.inv", (z.args[1][0],), ())))
                    return
            go(y, ct)
            return
        if o == "norm1":
            go(a[0], T.mul(ct, T.mk("sign", a[0])))
            return
        if o == "abs":
            go(a[0], T.mul(ct, T.mk("sign", a[0])))
            return
        if o == "log":
            go(a[0], T.mul(ct, T.power(a[0], -1)))
            return
        if o == "exp":
            go(a[0], T.mul(ct, t))
            return
        if o == "ite":
            go(a[1], T.ite(a[0], ct, ZERO))
            go(a[2], T.ite(a[0], ZERO, ct))
            return
        if o == "max" and len(a[0]) == 2:
            c = T.cmp("le", a[0][0], a[0][1])
            go(a[0][1], T.ite(c, ct, ZERO))
            go(a[0][0], T.ite(c, ZERO, ct))
            return
        if o == "min" and len(a[0]) == 2:
            c = T.cmp("le", a[0][0], a[0][1])
            go(a[0][0], T.ite(c, ct, ZERO))
            go(a[0][1], T.ite(c, ZERO, ct))
            return
        if o == "mm" and not dep(a[0]) and T.rank(a[0]) == 2:
            rest = T.mm(*a[1:])
            go(rest, T.mm(T.transpose(a[0]), ct))
            return
        if o == "app":
            go(a[2], T.app(a[0], "trans" if a[1] == "times" else "times", ct))
            return
        if o == "ravel":
            s = S.shape_of(a[0])
            go(a[0], prims.PRIMS["np.reshape"]([ct, prims.tup(s)], {}) if s else ct)
            return
        raise NoRule("no derivative rule for %s" % o)

    def red(f_, d):
        """cotangent of a scalar factor of an array expression"""
        if is_scal(f_) and not is_scal(d):
            if S.shape_of(d) is None:
                raise NoRule("broadcast of unknown shape")
            return prims.sum0(d)
        return d
    go(f, ONE)
    return T.add(*acc) if acc else ZERO
