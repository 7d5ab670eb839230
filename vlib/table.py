"""Table-driven comparison of public functions with defining formulas: the value
number of every component of the result against the value number of a
specification function over the same symbolic arguments."""
import numpy as np

from . import eqv
from . import interp as IP
from . import ops
from . import point
from . import par
from . import term as T
from .term import num, NONE


class Row:
    def __init__(self, mod, name, args, spec, label="", kw=None, parts=None, env=None, n=12, real=True, sizes=None,
                 hooks=None, opaque=None, rule="definition", specargs=None, tol=1e-6, any_of=None, call=None, cplx=False, post=None, unroll=0, cheap=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    @property
    def construct(self):
        return ("%s %s" % (self.name, self.label)).strip()


def where(I, f):
    while isinstance(f, (IP.Jit,)):
        f = f.func
    if isinstance(f, IP.Func):
        return (f.module.rel, getattr(f.node, "lineno", 0))
    return None


def flat(I, v, path="", out=None):
    """components of a result"""
    if out is None:
        out = []
    if isinstance(v, IP.PyTuple):
        for i, x in enumerate(v.items):
            flat(I, x, "%s[%d]" % (path, i), out)
        return out
    if isinstance(v, IP.NT):
        for k, x in v.fields.items():
            flat(I, x, "%s.%s" % (path, k), out)
        return out
    t = I.to_term(v)
    if t.op == "tuple":
        for i, x in enumerate(t.args[0]):
            flat(I, x, "%s[%d]" % (path, i), out)
        return out
    out.append((path, t))
    return out


def points(row, x=None):
    out = []
    for s in range(row.n):
        r = point.rng_for("table", row.name, s)
        sz = {T.sym("n"): 4 + s % 3, T.sym("m"): 3 + s % 2, T.sym("k"): 2 + s % 2}
        for k, v in (row.sizes or {}).items():
            sz[T.sym(k)] = v(s) if callable(v) else v
        P = point.Point(salt=s, sizes=sz, cplx=row.cplx)
        if row.env:
            row.env(P, s, r, lambda k: P.sizes[T.sym(k)])
        out.append(P)
    return out


def run_row(r, row, interp=None):
    con = ("%s %s" % (row.name, row.label)).strip()
    ops.reset()
    T.CTX.real = row.real
    T.CTX.cplxobj = row.cplx
    I = IP.Interp()
    I.int_syms = {T.sym("n"), T.sym("m"), T.sym("k")} | {T.sym(k) for k in (row.sizes or {})}
    I.unroll = row.unroll
    for k, v in (row.hooks or {}).items():
        I.hooks[k] = v
    for k, v in (row.opaque or {}).items():
        I.opaque_funcs[k] = v
    f = I.get(row.mod, row.name)
    w = where(I, f) or ("src/" + row.mod.replace(".", "/"), 0)
    try:
        a = row.args(I)
    except TypeError:
        a = row.args()
    kw = row.kw() if row.kw else {}
    if row.call:
        got = row.call(I, f, a, kw)
    else:
        got = I.call(f, list(a), dict(kw))
    sa = row.specargs(I) if row.specargs else a
    want = I.call(I.spec(row.spec, "spec"), list(sa), {})
    if row.post:
        got = row.post(I, got)
    g, s = flat(I, got), flat(I, want)
    if row.parts:
        names = row.parts
    else:
        names = [p for p, _ in s]
    if len(g) != len(s):
        r.unknown(row.rule, con, w, "result has %d components, the definition %d" % (len(g), len(s)))
        return
    for nm, (_, x), (_, y) in zip(names, g, s):
        if y.op == "const" and y.args[1] == "skip":
            continue
        ver, d = (eqv.same if row.cheap else eqv.decide)(x, y, points(row), (), row.tol)
        r.add(row.rule, ("%s %s" % (con, nm)).strip(), ver, w, d)


def run(r, rows):
    par.each(r, rows, run_row, "definition", timeout=150)
