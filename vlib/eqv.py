"""Equality of two value numbers as functions: normal form, then element-wise
case split on the ordering cells, then a separating point."""
import itertools
from fractions import Fraction

from . import term as T
from . import shape as S
from .term import ONE, ZERO, TRUE, FALSE, is_num

LIMIT = 64


class TooMany(Exception):
    pass


def clear(q):
    """multiply by positive denominators (sign is unchanged)"""
    for _ in range(4):
        p = T._as_poly(q)
        den = {}
        for m in p:
            if m is ONE:
                continue
            for f, e in T._as_prod(m).items():
                if e < 0 and (T.nonneg(f) or e % 2 == 0):
                    den[f] = max(den.get(f, 0), -e)
        if not den:
            return q
        q = T.mul(q, *[T.power(f, e) for f, e in den.items()])
    return q


def pieces(t):
    """element-wise piecewise form: list of (conds: dict atom->bool, term)"""
    memo = {}

    def both(c1, c2):
        d = dict(c1)
        for k, v in c2.items():
            if d.get(k, v) != v:
                return None
            d[k] = v
        return d

    def cond(c):
        """list of (conds, truth)"""
        if c is TRUE or c is FALSE:
            return [({}, c is TRUE)]
        if c.op in ("and", "or"):
            out = [({}, c.op == "and")]
            for x in c.args[0]:
                nxt = []
                for d, v in out:
                    if v == (c.op == "or"):
                        nxt.append((d, v))
                        continue
                    for d2, v2 in cond(x):
                        e = both(d, d2)
                        if e is not None:
                            nxt.append((e, v2))
                out = nxt
                if len(out) > LIMIT:
                    raise TooMany()
            return out
        if c.op == "not":
            return [(d, not v) for d, v in cond(c.args[0])]
        if c.op == "cmp" and c.args[0] in ("lt", "le"):
            out = []
            for d, q in go(clear(c.args[1])):
                x = T.cmp(c.args[0], q, ZERO)
                if x is TRUE or x is FALSE:
                    out.append((d, x is TRUE))
                    continue
                n = T.not_(x)
                key, val = (x, True) if x.key <= n.key else (n, False)
                for v in (True, False):
                    e = both(d, {key: v == val})
                    if e is not None:
                        out.append((e, v))
            return out
        return [({c: True}, True), ({c: False}, False)]

    def comb(parts, f):
        out = [({}, [])]
        for p in parts:
            nxt = []
            for d, vs in out:
                for d2, v in p:
                    e = both(d, d2)
                    if e is not None:
                        nxt.append((e, vs + [v]))
            out = nxt
            if len(out) > LIMIT:
                raise TooMany()
        return [(d, f(vs)) for d, vs in out]

    def go(x):
        r = memo.get(x)
        if r is None:
            r = go1(x)
            memo[x] = r
        return r

    def go1(x):
        o = x.op
        if o == "sum":
            cs = [c for _, c in x.args[0]]
            return comb([go(m) for m, _ in x.args[0]], lambda vs: T.add(*[T.scale(v, c) for v, c in zip(vs, cs)]))
        if o == "prod":
            es = [e for _, e in x.args[0]]
            return comb([go(m) for m, _ in x.args[0]], lambda vs: T.mul(*[T.power(v, e) for v, e in zip(vs, es)]))
        if o == "ite":
            out = []
            for d, v in cond(x.args[0]):
                for d2, w in go(x.args[1] if v else x.args[2]):
                    e = both(d, d2)
                    if e is not None:
                        out.append((e, w))
            if len(out) > LIMIT:
                raise TooMany()
            return out
        if o == "abs" and T.is_real(x.args[0]):
            c = T.cmp("le", ZERO, x.args[0])
            return go(T.mk("ite", c, x.args[0], T.neg(x.args[0])))
        if o in ("max", "min") and isinstance(x.args[0], tuple) and len(x.args[0]) == 2:
            a, b = x.args[0]
            c = T.cmp("le", a, b)
            if c is TRUE or c is FALSE:
                return go(b if (c is TRUE) == (o == "max") else a)
            return go(T.mk("ite", c, b, a) if o == "max" else T.mk("ite", c, a, b))
        if o == "sign" and T.is_real(x.args[0]):
            c = T.cmp("lt", ZERO, x.args[0])
            c2 = T.cmp("lt", x.args[0], ZERO)
            return go(T.mk("ite", c, ONE, T.mk("ite", c2, T.num(-1), ZERO)))
        return [({}, x)]
    return go(t)


def feasible(conds, facts=()):
    """interior consistency of a set of affine comparison literals over
    monomial atoms (Fourier-Motzkin on strict inequalities)"""
    rows = []
    for c, v in conds.items():
        if c.op != "cmp" or c.args[0] not in ("lt", "le"):
            continue
        q = c.args[1] if v else T.neg(c.args[1])
        rows.append(dict(T._as_poly(q)))          # q < 0
    for q in facts:                                # q > 0
        rows.append(dict(T._as_poly(T.neg(q))))
    atoms = set()
    for r in rows:
        atoms |= set(r)
    atoms.discard(ONE)
    for m in atoms:
        if T.nonneg(m):
            rows.append({m: Fraction(-1)})
    for m in sorted(atoms, key=lambda t: t.key):
        up = [r for r in rows if r.get(m, 0) > 0]
        lo = [r for r in rows if r.get(m, 0) < 0]
        rest = [r for r in rows if not r.get(m, 0)]
        for p in up:
            for q in lo:
                s = {}
                for k in set(p) | set(q):
                    c = p.get(k, 0) / p[m] - q.get(k, 0) / q[m]
                    if c:
                        s[k] = c
                s.pop(m, None)
                rest.append(s)
        rows = rest
        if len(rows) > 400:
            return True
    for r in rows:
        c = r.get(ONE, Fraction(0))
        if c >= 0:
            return False
    return True


def elementwise_equal(a, b, facts=()):
    """True if equal on every full-dimensional ordering cell, else a cell"""
    pa, pb = pieces(a), pieces(b)
    n = 0
    for d1, x in pa:
        for d2, y in pb:
            d = dict(d1)
            ok = True
            for k, v in d2.items():
                if d.get(k, v) != v:
                    ok = False
                    break
                d[k] = v
            if not ok or not feasible(d, facts):
                continue
            n += 1
            if x is not y and T.sub(x, y) is not ZERO:
                return (d, x, y)
    return True


def expand(t):
    """squared norms of sums as sums of inner products (real arithmetic)"""
    def f(x):
        if x.op == "n2" and x.args[0].op == "sum":
            ms = [(expand(m), c) for m, c in x.args[0].args[0]]
            if any(T.is_scalar(m) for m, _ in ms) or len(ms) > 6:
                return None
            out = []
            for i, (m, c) in enumerate(ms):
                out.append(T.scale(T.n2(m), c * c))
                for k, d in ms[i + 1:]:
                    out.append(T.scale(T.vdot(m, k), 2 * c * d))
            return T.add(*out)
        return None
    return T.rebuild(t, f)


def decide_any(a, specs, points=(), facts=(), tol=1e-6):
    """a equals one of several equivalent specifications"""
    res = [decide(a, b, points, facts, tol) for b in specs]
    for v in ("proved", "unknown", "refuted"):
        for r in res:
            if r[0] == v:
                return r


def same(a, b, points=(), facts=(), tol=1e-6):
    """verdict from the value numbers alone (no case distinction), or a separating point"""
    from . import point
    if a is b:
        return "proved", "equal value numbers"
    s, info = point.separate(a, b, points, tol)
    if s == "differ":
        return "refuted", "at a separating point the code gives %s, required %s" % (point.fmt(info[1]), point.fmt(info[2]))
    return "unknown", "other value number (%s %s)" % (s, info)


def decide(a, b, points=(), facts=(), tol=1e-6):
    """verdict, detail for a == b"""
    from . import point
    if a is b:
        return "proved", "equal value numbers"
    r = T.equal(a, b)
    if r is True:
        return "proved", "equal in every case of the branch conditions"
    if T.CTX.real:
        a2, b2 = expand(a), expand(b)
        if a2 is b2 or T.sub(a2, b2) is ZERO:
            return "proved", "equal after expanding squared norms"
    why = ""
    try:
        r = elementwise_equal(a, b, facts)
        if r is True:
            return "proved", "equal on every ordering cell"
        why = "cell {%s}: %s vs %s" % (", ".join("%s%s" % ("" if v else "not ", T.show(k, 4)) for k, v in r[0].items()),
                                       T.show(r[1], 5), T.show(r[2], 5))
    except TooMany:
        why = "too many cells"
    try:
        from . import pointwise
        r, txt = pointwise.entry_equal(a, b)
        if r is True:
            return "proved", txt
        if r is False:
            why = txt
    except Exception as e:      # noqa: no element form
        why += " [%s: %s]" % (type(e).__name__, e)
    s, info = point.separate(a, b, points, tol)
    if s == "differ":
        P, va, vb = info
        return "refuted", "%s; at a separating point the code gives %s, required %s" % (why, point.fmt(va), point.fmt(vb))
    if s == "agree" and closed(a) and closed(b):
        return "proved", "equal constants (folded)"
    return "unknown", "%s (%s %s)" % (why, s, info)


CONSTS = {"pi", "inf", "nan", "1j"}


def closed(t):
    """constant expression: no free symbol, no random draw"""
    for x in T.subterms(t):
        if x.op == "sym" and x.args[0] not in CONSTS:
            return False
        if x.op in ("app", "ent") or x.op == "call" and str(x.args[0]).startswith("random."):
            return False
    return True
