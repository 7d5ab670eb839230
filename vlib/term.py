"""Hash-consed value terms with algebraic normalisation.

A Term is a value number: two program expressions that get the same Term
denote the same value on every execution (modulo floating point rounding and
dtype promotion).  Terms are normalised on construction:

* sums/products are polynomial normal forms with rational coefficients;
* matrix products, operator applications and linear primitives distribute over
  sums and let scalar coefficients through;
* comparisons and boolean connectives are canonical;
* conditionals are kept as ``ite`` nodes and are split lazily (see cases()).
"""
from fractions import Fraction
import itertools

_pool = {}


class Term:
    __slots__ = ("op", "args", "key", "_id", "size")

    def __repr__(self):
        return show(self)

    # identity equality (interned)
    def __hash__(self):
        return self._id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key


_counter = itertools.count()


def _keyof(a):
    if isinstance(a, Term):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_keyof(x) for x in a) + ")"
    return repr(a)


def _sizeof(a):
    if isinstance(a, Term):
        return a.size
    if isinstance(a, tuple):
        return sum(_sizeof(x) for x in a)
    return 0


_HASH_AT = 400


def mk(op, *args):
    k = (op, args)
    t = _pool.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        key = op + "(" + ",".join(_keyof(a) for a in args) + ")"
        if len(key) > _HASH_AT:
            import hashlib
            key = op + "#" + hashlib.sha1(key.encode()).hexdigest()
        t.key = key
        t.size = 1 + sum(_sizeof(a) for a in args)
        t._id = next(_counter)
        _pool[k] = t
    return t


# ----------------------------------------------------------------- constants
def num(c):
    if isinstance(c, bool):
        return mk("const", "bool", c)
    if isinstance(c, complex):
        if c.imag == 0:
            return num(c.real)
        return add(num(c.real), mul(num(c.imag), IMAG))
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            if c == float("inf"):
                return INF
            if c == float("-inf"):
                return mul(num(-1), INF)
            return mk("sym", "nan")
        c = Fraction(repr(c))
    return mk("num", Fraction(c))


def const(v):
    if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
        return num(v)
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if v is None:
        return NONE
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    if isinstance(v, bytes):
        return mk("const", "bytes", v)
    return mk("const", "str", v)


def sym(name):
    return mk("sym", name)


NONE = mk("const", "none", None)
TRUE = mk("const", "bool", True)
FALSE = mk("const", "bool", False)
IMAG = mk("sym", "1j")
INF = mk("sym", "inf")
ZERO = num(0)
ONE = num(1)


def is_num(t):
    return isinstance(t, Term) and t.op == "num"


def numval(t):
    return t.args[0]


# ------------------------------------------------------------- scalar oracle
class Ctx:
    """Facts about symbols: scalars, shapes, non-negative, real, integer."""

    def __init__(self):
        self.scalars = set()
        self.nonneg = set()
        self.shapes = {}
        self.real = False       # treat every array as real valued
        self.vectors = set()
        self.reals = set()      # symbols known to be real valued
        self.opaque = set()     # values the interpreter could not follow (loop states, unsupported constructs)
        self.cplxobj = False    # every array symbol not in reals has a complex dtype
        self.free_heads = False  # a loop state may take any value (transition rules)


CTX = Ctx()
_realmemo = {}

SCALAR_CALLS = {"n2", "vdot", "dim", "size", "argmax", "argmin", "len",
                "trace", "rdot", "max0", "min0", "sum0", "mean0", "any0",
                "all0", "norm1", "norminf", "finfo_eps", "int", "float",
                "normest"}


def array_cond(c):
    """condition known to be an array (element-wise selection)"""
    if c.op in ("and", "or"):
        return any(array_cond(x) for x in c.args[0])
    if c.op == "not":
        return array_cond(c.args[0])
    if c.op == "cmp" and c.args[0] != "eqv":
        return any(not is_scalar(x) and (rank(x) or 0) > 0 for x in c.args[1:])
    return False


def maybe_array(c):
    """condition not known to be a single truth value"""
    if c.op in ("and", "or"):
        return any(maybe_array(x) for x in c.args[0])
    if c.op == "not":
        return maybe_array(c.args[0])
    if c.op == "cmp" and c.args[0] != "eqv":
        return any(not is_scalar(x) and rank(x) != 0 for x in c.args[1:])
    return False


def is_scalar(t):
    if not isinstance(t, Term):
        return False
    o = t.op
    if o == "num" or t is IMAG or t is INF:
        return True
    if o == "sym":
        return t in CTX.scalars
    if o == "sum":
        return all(is_scalar(m) for m, _ in t.args[0])
    if o == "prod":
        return all(is_scalar(f) for f, _ in t.args[0])
    if o in SCALAR_CALLS:
        return True
    if o in ("abs", "sqrt", "conj", "real", "imag", "exp", "log", "sign", "cos", "sin"):
        return is_scalar(t.args[0])
    if o in ("max", "min"):
        return all(is_scalar(a) for a in t.args[0])
    if o == "ite":
        return is_scalar(t.args[1]) and is_scalar(t.args[2]) and not maybe_array(t.args[0])
    if o in ("cmp", "and", "or", "not"):
        return False
    if o == "const":
        return t.args[0] == "bool"
    if o == "idx" and CTX.real:
        from . import shape
        return shape.shape_of(t) == ()
    return t in CTX.scalars


# ------------------------------------------------------------------ sums
def _as_poly(t):
    """dict mono -> coef"""
    if t.op == "num":
        return {ONE: t.args[0]} if t.args[0] != 0 else {}
    if t.op == "sum":
        return dict(t.args[0])
    return {t: Fraction(1)}


def _from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m is ONE:
            return num(c)
        if c == 1:
            return m
    items = tuple(sorted(p.items(), key=lambda kv: kv[0].key))
    return mk("sum", items)


def add(*ts):
    p = {}
    for t in ts:
        for m, c in _as_poly(t).items():
            p[m] = p.get(m, 0) + c
    return _from_poly(p)


def neg(t):
    return _from_poly({m: -c for m, c in _as_poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def scale(t, c):
    c = Fraction(c)
    return _from_poly({m: k * c for m, k in _as_poly(t).items()})


def _as_prod(t):
    """dict factor->exp for a mono (no numeric coefficient)"""
    if t is ONE:
        return {}
    if t.op == "prod":
        return dict(t.args[0])
    return {t: Fraction(1)}


def nonneg(t):
    if t.op == "num":
        return t.args[0] >= 0
    if t.op in ("n2", "abs", "dim", "size", "sqrt", "exp", "norm1", "norminf", "len"):
        return True
    if t.op == "prod":
        return all(nonneg(f) or e % 2 == 0 for f, e in t.args[0])
    if t.op == "sum":
        return all(c >= 0 and nonneg(m) for m, c in t.args[0])
    if t.op == "call" and t.args[0] in ("np.percentile", "np.median") and t.args[1]:
        return nonneg(t.args[1][0])
    if t.op == "lamarr":
        return nonneg(t.args[0])
    return t in CTX.nonneg


def _from_prod(d):
    """returns (sign/coef Fraction, mono Term)"""
    coef = Fraction(1)
    out = {}
    for f, e in d.items():
        if e == 0:
            continue
        if f is IMAG and e.denominator == 1:
            k = int(e) % 4
            if k == 0:
                continue
            if k == 1:
                out[f] = Fraction(1)
            elif k == 2:
                coef = -coef
            else:
                coef = -coef
                out[f] = Fraction(1)
            continue
        out[f] = e
    if not out:
        return coef, ONE
    if len(out) == 1:
        (f, e), = out.items()
        if e == 1 and f.op not in ("sum",):
            return coef, f
    return coef, mk("prod", tuple(sorted(out.items(), key=lambda kv: kv[0].key)))


MAX_EXPAND = 400


def mul2(a, b):
    pa, pb = _as_poly(a), _as_poly(b)
    if not pa or not pb:
        return ZERO
    if len(pa) * len(pb) > MAX_EXPAND:
        return _mono_mul_opaque(a, b)
    p = {}
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = _as_prod(m1)
            for f, e in _as_prod(m2).items():
                d[f] = d.get(f, 0) + e
            # positive integer powers of sums appearing here must be expanded
            redo = [f for f, e in d.items() if f.op == "sum" and e.denominator == 1 and e > 0]
            k, m = _from_prod({f: e for f, e in d.items() if f not in redo})
            if redo:
                t = scale(m, k * c1 * c2)
                for f in redo:
                    for _ in range(int(d[f])):
                        t = mul2(t, f)
                extra.append(t)
                continue
            p[m] = p.get(m, 0) + k * c1 * c2
    r = _from_poly(p)
    for t in extra:
        r = add(r, t)
    return r


def _mono_mul_opaque(a, b):
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk("bigmul", x, y)


def mul(*ts):
    r = ONE
    for t in ts:
        r = mul2(r, t)
    return r


def content(p):
    """(coef, normalised poly Term): coef * normalised = p, leading coef 1"""
    d = _as_poly(p)
    if not d:
        return Fraction(0), ZERO
    lead = min(d, key=lambda m: m.key)
    c = d[lead]
    return c, _from_poly({m: k / c for m, k in d.items()})


def power(b, e):
    """b ** e with rational exponent e"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == "num":
        c = b.args[0]
        if e.denominator == 1:
            if c == 0 and e < 0:
                return mk("pow", b, num(e))
            return num(c ** int(e))
        if c == 1 or (c == 0 and e > 0):
            return b
        if c > 0 and e.denominator == 2:
            import math
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd) ** int(e * 2))
        # keep e.g. sqrt(2) as an atom with integer power bookkeeping
        return mk("prod", ((b, e),))
    if b.op == "sum":
        if len(b.args[0]) == 1:
            (m, c), = b.args[0]
            if c > 0 or e.denominator == 1:
                return mul2(power(num(c), e), power(m, e))
        if e.denominator == 1 and 1 < e <= 4 and len(b.args[0]) <= 6:
            r = b
            for _ in range(int(e) - 1):
                r = mul2(r, b)
            return r
        c, q = content(b)
        if c < 0 and e.denominator != 1:
            c, q = Fraction(1), b
        if c != 1:
            return mul2(power(num(c), e), power(q, e))
        return mk("prod", ((b, e),))
    if b.op == "prod":
        if e.denominator == 1:
            k, m = _from_prod({f: x * e for f, x in b.args[0]})
            return scale(m, k)
        # fractional exponent: |.| for even powers
        out = ONE
        for f, x in b.args[0]:
            if nonneg(f):
                out = mul2(out, power(f, x * e))
            elif x % 2 == 0:
                out = mul2(out, power(abs_(f), x * e))
            else:
                k, m = _from_prod({b: e})
                return mk("prod", ((b, e),))
        return out
    k, m = _from_prod({b: e})
    return scale(m, k)


def div(a, b):
    return mul2(a, power(b, -1))


def sqrt(a):
    return power(a, Fraction(1, 2))


# ---------------------------------------------------------- unary primitives
def abs_(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a.op == "abs":
        return a
    if nonneg(a):
        return a
    p = _as_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if m.op == "prod":
            out = num(abs(c))
            for f, e in m.args[0]:
                if f is IMAG:
                    continue
                out = mul2(out, power(abs_(f), e))
            return out
        if c != 1:
            return mul2(num(abs(c)), abs_(m))
        if m.op == "conj":
            return abs_(m.args[0])
        if m is IMAG:
            return ONE
        return mk("abs", m)
    c, q = content(a)
    if c != 1:
        return mul2(num(abs(c)), mk("abs", q))
    return mk("abs", a)


def conj(a):
    if CTX.real:
        return a
    if a.op == "num":
        return a
    if a is IMAG:
        return neg(IMAG)
    if a.op == "conj":
        return a.args[0]
    if a.op == "sum":
        return add(*[scale(conj(m), c) for m, c in a.args[0]])
    if a.op == "prod":
        return mul(*[power(conj(f), e) for f, e in a.args[0]])
    if a.op in ("abs", "n2", "dim", "size", "real", "imag", "arange"):
        return a
    if a.op == "mm":
        return mm(*[conj(x) for x in a.args])
    if a.op == "idx":
        return mk("idx", conj(a.args[0]), a.args[1])
    if a.op == "ite":
        return ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    if a.op == "const" or a is INF:
        return a
    if a in CTX.nonneg:
        return a
    if is_real(a):
        return a
    return mk("conj", a)




def is_real(a):
    """values known to be real: random draws, index and comparison data and
    what is computed from them by real operations"""
    r = _realmemo.get(a)
    if r is not None:
        return r
    o = a.op
    if o in ("num", "dim", "size", "abs", "n2", "real", "imag", "arange", "zeros", "ones", "eye", "floordiv", "cmp",
             "and", "or", "not", "argsort", "largest"):
        r = True
    elif a is IMAG or o in ("sym", "app", "unbound", "unresolved"):
        return a in CTX.reals or a in CTX.nonneg
    elif o == "sum":
        r = all(is_real(m) for m, _ in a.args[0])
    elif o == "prod":
        r = all(is_real(f) for f, e in a.args[0])   # real arithmetic stays real (or nan)
    elif o in ("T", "sign", "sort", "cumsum", "flip", "ravel", "reshape", "sumax", "sum0", "idx", "max", "min", "ent", "exp", "log", "sqrt", "cos", "sin"):
        x = a.args[0]
        r = all(is_real(y) for y in (x if isinstance(x, tuple) else (x,)))
    elif o in ("mm", "vdot"):
        r = all(is_real(x) for x in a.args)
    elif o in ("at_set", "at_add"):
        r = is_real(a.args[0]) and is_real(a.args[2])
    elif o == "ite":
        r = is_real(a.args[1]) and is_real(a.args[2])
    elif o == "vmapped":
        r = is_real(a.args[0])
    elif o == "call":
        if a.args[0].startswith("random."):
            r = True
        elif a.args[0] in ("linalg.qr", "np.diag", "np.pad", "np.roll", "np.diff"):
            r = is_real(a.args[1][0])
        else:
            r = False
    else:
        r = False
    if r:
        _realmemo[a] = r
    return r


def real_(a):
    if CTX.real:
        return a
    if a.op == "sum":
        return add(*[scale(real_(m), c) for m, c in a.args[0]])
    if a.op == "num" or nonneg(a) or a.op in ("real", "imag"):
        return a
    if a.op == "conj":
        return real_(a.args[0])
    return mk("real", a)


def transpose(a):
    if a.op == "T":
        return a.args[0]
    if a.op in ("num",):
        return a
    if a.op == "sum" and _same_rank([m for m, _ in a.args[0]]):
        return add(*[scale(transpose(m), c) for m, c in a.args[0]])
    if a.op == "prod" and _same_rank([f for f, _ in a.args[0]]):
        return mul(*[power(transpose(f), e) for f, e in a.args[0]])
    if a.op == "mm":
        return mm(*[transpose(x) for x in reversed(a.args)])
    if a.op == "conj":
        return conj(transpose(a.args[0]))
    if is_scalar(a) or rank(a) in (0, 1):
        return a
    return mk("T", a)


def _same_rank(ts):
    """no broadcasting between different known ranks"""
    ts = [x for x in ts if not is_scalar(x)]
    rs = {rank(x) for x in ts} - {0}
    if rs == {None} and len(ts) > 1 and any(x.op in ("sumax", "meanax") or _expands(x) for x in ts):
        return False
    return len(rs) <= 1


def rank(t):
    """known array rank or None"""
    from . import shape
    s = shape.shape_of(t)
    return None if s is None else len(s)


def hermitian(a):
    return conj(transpose(a))


def _expands(m):
    """has a factor with a new axis, so may broadcast against its neighbours"""
    for x in _as_prod(m):
        while x.op in ("abs", "conj", "sqrt", "exp", "real", "imag") and isinstance(x.args[0], Term):
            x = x.args[0]
        if x.op == "idx" and isinstance(x.args[1], Term) and (x.args[1] is NONE or x.args[1].op == "tuple" and NONE in x.args[1].args[0]):
            return True
    return False


def _pull(t, f):
    """apply additive homogeneous f to t, distributing over sums and pulling
    out numeric and scalar factors"""
    if t.op == "sum":
        sc = [is_scalar(m) for m, _ in t.args[0]]
        if any(sc) and not all(sc):          # scalar broadcast into an array
            return f(t)
        if not any(sc):
            from . import shape
            shs = {shape.shape_of(m) for m, _ in t.args[0]}
            if len(shs - {None}) > 1:      # arrays broadcast
                return f(t)
            if None in shs and len(t.args[0]) > 1 and any(_expands(m) for m, _ in t.args[0]):
                return f(t)
    out = []
    for m, c in _as_poly(t).items():
        if m is ONE:
            out.append(mul2(num(c), f(ONE)))
            continue
        d = _as_prod(m)
        sc = {x: e for x, e in d.items() if is_scalar(x)}
        rest = {x: e for x, e in d.items() if x not in sc}
        k1, ms = _from_prod(sc)
        k2, mr = _from_prod(rest)
        out.append(mul2(scale(ms, c * k1 * k2), f(mr)))
    return add(*out) if out else ZERO


def linear1(op, x, *extra):
    return _pull(x, lambda m: mk(op, m, *extra))


def mm(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = mm2(r, y)
    return r


def mm2(a, b):
    if a.op == "bigmul" or b.op == "bigmul":
        return mk("mm", a, b)
    if a is ZERO or b is ZERO:
        return ZERO
    if rank(a) == 1 and rank(b) == 1:
        return inner(a, b)

    def left(ma):
        return _pull(b, lambda mb: _mm_atoms(ma, mb))
    return _pull(a, left)


def _mm_atoms(a, b):
    if a.op == "mm" and rank(a) == 1 and rank(b) == 2:
        return mm(transpose(b), a)
    la = a.args if a.op == "mm" else (a,)
    lb = b.args if b.op == "mm" else (b,)
    seq = list(la) + list(lb)
    # vector-matrix products are put in matrix-vector form  x @ A -> A.T @ x
    if len(seq) == 2:
        x, y = seq
        rx, ry = rank(x), rank(y)
        if rx == 1 and ry == 1:
            return inner(x, y)
        if rx == 1 and ry == 2:
            return _mm_atoms(transpose(y), x)
        if rx is not None and ry is not None and rx == 1 and y.op == "T":
            return _mm_atoms(transpose(y), x)
    elif rank(seq[0]) == 1 and len(seq) > 2:
        x = seq[0]
        if rank(seq[-1]) == 1:
            # x^T A y : canonical by key
            pass
        else:
            rest = seq[1:]
            return mm(*([transpose(q) for q in reversed(rest)] + [x]))
    return mk("mm", *seq)


def inner(x, y):
    """sum_i x_i y_i (no conjugation)"""
    return vdot(conj(x), y)


def vdot(a, b):
    """sum conj(a_i) b_i; additive in both, canonicalised"""
    if a is ZERO or b is ZERO:
        return ZERO

    def f(ma):
        def g(mb):
            if ma is mb:
                return n2(ma)
            if CTX.real and mb.key < ma.key:
                return mk("vdot", mb, ma)
            return mk("vdot", ma, mb)
        return _pull(b, g)
    if a is b:
        return n2(a)
    p = _as_poly(a)
    out = []
    for m, c in p.items():
        d = _as_prod(m)
        sc = {x: e for x, e in d.items() if is_scalar(x)}
        rest = {x: e for x, e in d.items() if x not in sc}
        k1, ms = _from_prod(sc)
        k2, mr = _from_prod(rest)
        out.append(mul2(scale(conj(ms), c * k1 * k2), f(mr)))
    r = add(*out)
    # a and b proportional by a sign/number: handled via content
    ca, qa = content(a)
    cb, qb = content(b)
    if qa is qb:
        return scale(n2(qa), ca * cb)
    return r


def n2(r):
    """squared euclidean norm of r"""
    if r is ZERO:
        return ZERO
    c, q = content(r)
    if c != 1:
        return scale(n2(q), c * c)
    if q.op in ("conj", "T"):
        return n2(q.args[0])
    if q.op == "prod":
        d = dict(q.args[0])
        sc = {x: e for x, e in d.items() if is_scalar(x)}
        if sc:
            rest = {x: e for x, e in d.items() if x not in sc}
            k1, ms = _from_prod(sc)
            k2, mr = _from_prod(rest)
            return mul2(power(abs_(ms), 2), n2(mr))
    if is_scalar(q):
        return power(abs_(q), 2)
    if q.op in ("ravel",):
        return n2(q.args[0])
    return mk("n2", q)


def app(op, d, x):
    """application of an opaque linear operator op in direction d"""
    if x is ZERO:
        return ZERO
    return _pull(x, lambda m: mk("app", op, d, m))


# ------------------------------------------------------------------ booleans
def cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if op in ("gt", "ge"):
        a, b = b, a
        op = {"gt": "lt", "ge": "le"}[op]
    if op == "ne":
        return not_(cmp("eq", a, b))
    if op == "eq":
        if a is b:
            return TRUE
        if a.op == "const" and b.op == "const":
            return FALSE
        if (a.op == "const") != (b.op == "const") and (a.op in ("num", "const") and b.op in ("num", "const")):
            return FALSE
        if is_num(a) and is_num(b):
            return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op in ("const", "tuple", "nt", "fn") or b.op in ("const", "tuple", "nt", "fn"):
            x, y = sorted((a, b), key=lambda t: t.key)
            return mk("cmp", "eqv", x, y)
        d = sub(a, b)
        c, q = content(d)
        if q is ZERO:
            return TRUE
        if q is ONE:
            return FALSE
        return mk("cmp", "eq", q, ZERO)
    d = sub(a, b)
    if is_num(d):
        v = d.args[0]
        return TRUE if (v < 0 if op == "lt" else v <= 0) else FALSE
    c, q = content(d)
    # keep sign, drop magnitude
    q = q if c > 0 else neg(q)
    return mk("cmp", op, q, ZERO)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp" and a.args[0] == "lt":
        return cmp("le", neg(a.args[1]), ZERO)
    if a.op == "cmp" and a.args[0] == "le":
        return cmp("lt", neg(a.args[1]), ZERO)
    if a.op == "and":
        return or_(*[not_(x) for x in a.args[0]])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args[0]])
    if a is NONE:
        return TRUE
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk("not", a)


def _flat(op, xs):
    s = set()
    for x in xs:
        if x.op == op:
            s.update(x.args[0])
        else:
            s.add(x)
    return s


def and_(*xs):
    s = _flat("and", xs)
    if FALSE in s:
        return FALSE
    s.discard(TRUE)
    for x in s:
        if not_(x) in s:
            return FALSE
    # absorption: a & (a | b) = a
    s = {x for x in s if not (x.op == "or" and any(y in s for y in x.args[0]))}
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda t: t.key)))


def or_(*xs):
    s = _flat("or", xs)
    if TRUE in s:
        return TRUE
    s.discard(FALSE)
    for x in s:
        if not_(x) in s:
            return TRUE
    s = {x for x in s if not (x.op == "and" and any(y in s for y in x.args[0]))}
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda t: t.key)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE or c is NONE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if is_num(c):
        return a if c.args[0] != 0 else b
    if c.op == "const" and c.args[0] == "str":
        return a if c.args[1] else b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # boolean valued
    if isb(a) and isb(b):
        return or_(and_(c, a), and_(not_(c), b))
    # inner redundancy
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "cmp" and c.args[0] == "lt":
        # canonical orientation:  ite(not c) form
        n = not_(c)
        if n.key < c.key:
            return mk("ite", n, b, a)
    if c.op == "cmp" and c.args[0] == "le":
        n = not_(c)
        if n.key < c.key:
            return mk("ite", n, b, a)
    return mk("ite", c, a, b)


def isb(t):
    return t.op in ("cmp", "and", "or", "not") or (t.op == "const" and t.args[0] == "bool")


def maximum(*xs):
    s = _flat("max", xs)
    return _mm_ext("max", s)


def minimum(*xs):
    s = _flat("min", xs)
    return _mm_ext("min", s)


def _mm_ext(op, s):
    nums = [x for x in s if is_num(x)]
    rest = [x for x in s if not is_num(x)]
    if nums:
        f = max if op == "max" else min
        v = f(x.args[0] for x in nums)
        rest.append(num(v))
    rest = sorted(set(rest), key=lambda t: t.key)
    if len(rest) == 1:
        return rest[0]
    return mk(op, tuple(rest))


# -------------------------------------------------------------- substitution
def rebuild(t, f):
    """bottom-up map; f(term) -> term or None"""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        if x in memo:
            return memo[x]
        y = f(x)
        if y is not None:
            memo[x] = y
            return y
        r = reconstruct(x, go)
        memo[x] = r
        return r
    return go(t)


LINEAR_OPS = {"ravel", "reshape", "T", "real", "imag", "idx", "sum0", "sumax", "cumsum",
              "flip", "fft", "ifft", "squeeze", "swapaxes"}


def reconstruct(x, go):
    o = x.op
    if o in ("num", "const", "sym"):
        return x
    if o == "sum":
        return add(*[scale(go(m), c) for m, c in x.args[0]])
    if o == "prod":
        return mul(*[power(go(f), e) for f, e in x.args[0]])
    if o == "mm":
        return mm(*[go(a) for a in x.args])
    if o == "app":
        return app(go(x.args[0]), x.args[1], go(x.args[2]))
    if o == "abs":
        return abs_(go(x.args[0]))
    if o == "conj":
        return conj(go(x.args[0]))
    if o == "T":
        return transpose(go(x.args[0]))
    if o == "n2":
        return n2(go(x.args[0]))
    if o == "vdot":
        return vdot(go(x.args[0]), go(x.args[1]))
    if o == "and":
        return and_(*[go(a) for a in x.args[0]])
    if o == "or":
        return or_(*[go(a) for a in x.args[0]])
    if o == "not":
        return not_(go(x.args[0]))
    if o == "ite":
        return ite(go(x.args[0]), go(x.args[1]), go(x.args[2]))
    if o == "cmp":
        k, a, b = x.args
        if k == "eqv":
            return cmp("eq", go(a), go(b))
        return cmp(k, go(a), go(b))
    if o == "max":
        return maximum(*[go(a) for a in x.args[0]])
    if o == "min":
        return minimum(*[go(a) for a in x.args[0]])
    if o == "real":
        return real_(go(x.args[0]))
    if o == "idx":
        from . import prims
        return prims.index(go(x.args[0]), go(x.args[1]))
    if o == "dim":
        from . import prims
        return prims.dim(go(x.args[0]), x.args[1])
    if o in ("sum0", "ravel", "sumax", "cumsum", "flip", "imag"):
        return linear1(o, go(x.args[0]), *[go(a) for a in x.args[1:]])
    return mk(o, *[go(a) for a in x.args])


def subst(t, mapping):
    if not mapping:
        return t
    return rebuild(t, lambda x: mapping.get(x))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        st.extend(x.args)
    return seen


def syms(t):
    return {x for x in subterms(t) if x.op == "sym"}


def depends(t, s):
    return s in subterms(t)


def conditions(t):
    return {x.args[0] for x in subterms(t) if x.op == "ite"}


_opq = {}


def has_opaque(t):
    """does the value depend on something the interpreter did not follow"""
    if not CTX.opaque or CTX.free_heads:
        return False
    key = (t, len(CTX.opaque))
    r = _opq.get(key)
    if r is None:
        r = _opq[key] = any(x in CTX.opaque for x in subterms(t))
    return r


def atoms_of_cond(c):
    if c.op in ("and", "or"):
        r = set()
        for x in c.args[0]:
            r |= atoms_of_cond(x)
        return r
    if c.op == "not":
        return atoms_of_cond(c.args[0])
    return {c}


def assume(t, atom, val):
    """t under the assumption that the boolean atom has value val"""
    n = not_(atom)
    return subst(t, {atom: TRUE if val else FALSE, n: FALSE if val else TRUE})


def shape_of(t):
    from . import shape
    return shape.shape_of(t)


def cases(*terms, limit=7):
    """Split all ite conditions occurring in the terms; yields
    (assumptions, specialised terms).  Exclusive string/number equalities on
    the same subject are respected."""
    def rec(ts, asg, depth):
        conds = set()
        for t in ts:
            for c in conditions(t):
                conds |= atoms_of_cond(c)
        conds = {c for c in conds if shape_of(c) in ((), None)}     # not element-wise masks
        if not conds:
            yield asg, ts
            return
        if depth >= limit:
            yield asg, ts
            return
        c = min(conds, key=lambda x: (x.size, x.key))
        for v in (True, False):
            if not consistent(asg, c, v):
                continue
            new = [assume(t, c, v) for t in ts]
            yield from rec(new, asg + [(c, v)], depth + 1)
    yield from rec(list(terms), [], 0)


def open_minmax(t):
    """scalar two-way max/min as conditionals, so that cases() splits them"""
    def f(x):
        if x.op in ("max", "min") and isinstance(x.args[0], tuple) and len(x.args[0]) == 2:
            a, b = x.args[0]
            if is_scalar(a) and is_scalar(b):
                c = cmp("le", a, b)
                return ite(c, b, a) if x.op == "max" else ite(c, a, b)
        return None
    return rebuild(t, f)


def consistent(asg, c, v):
    if not v:
        return True
    if c.op == "cmp" and c.args[0] == "eqv":
        for d, w in asg:
            if w and d.op == "cmp" and d.args[0] == "eqv" and d is not c:
                a = {c.args[1], c.args[2]}
                b = {d.args[1], d.args[2]}
                common = a & b
                if common and all(x.op == "const" for x in (a | b) - common):
                    return False
    if c.op == "cmp" and c.args[0] == "eq":
        for d, w in asg:
            if w and d.op == "cmp" and d.args[0] == "eq" and d is not c:
                diff = sub(c.args[1], d.args[1])
                if is_num(diff):
                    return False
                if is_num(add(c.args[1], d.args[1])) :
                    return False
    return True


def equal(a, b, limit=7):
    """True if proven equal in all cases, else a witness case (asg, a', b')"""
    if a is b:
        return True
    for asg, (x, y) in cases(a, b, limit=limit):
        if x is not y:
            if sub(x, y) is ZERO:
                continue
            return (asg, x, y)
    return True


# ------------------------------------------------------------------- display
def show(t, depth=6):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    o, a = t.op, t.args
    d = depth - 1
    if o == "num":
        v = a[0]
        return str(v) if v.denominator < 1000 else "%g" % float(v)
    if o == "const":
        return repr(a[1])
    if o == "sym":
        return str(a[0])
    if o == "sum":
        parts = []
        for m, c in a[0]:
            s = show(m, d) if m is not ONE else ""
            if m is ONE:
                parts.append(("+" if c > 0 else "-") + " " + show(num(abs(c))))
            elif c == 1:
                parts.append("+ " + s)
            elif c == -1:
                parts.append("- " + s)
            else:
                parts.append(("+ " if c > 0 else "- ") + show(num(abs(c))) + "·" + s)
        r = " ".join(parts)
        return "(" + (r[2:] if r.startswith("+ ") else r) + ")"
    if o == "prod":
        return "·".join(show(f, d) + ("" if e == 1 else "^" + str(e)) for f, e in a[0])
    if o == "mm":
        return " @ ".join(show(x, d) for x in a)
    if o == "app":
        return "%s.%s(%s)" % (show(a[0], d), a[1], show(a[2], d))
    if o == "T":
        return show(a[0], d) + ".T"
    if o == "n2":
        return "‖%s‖²" % show(a[0], d)
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1], d), {"lt": "<", "le": "<=", "eq": "==", "eqv": "=="}[a[0]], show(a[2], d))
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(show(x, d) for x in a[0]) + ")"
    if o == "ite":
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if o == "idx":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if o == "attr":
        return "%s.%s" % (show(a[0], d), a[1])
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
