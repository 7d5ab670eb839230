"""P14 catalogue problems: A = Phi Psi, b = A x, y = Psi x, reconstruct = Psi, names match."""
import ast
import os
import re

import numpy as np

from .. import inv
from .. import interp as IP
from .. import loader
from .. import names as N
from .. import ops
from .. import par
from .. import point
from .. import shape as S
from .. import term as T
from ..term import const, num

EXPLANATION = (
    "Every entry of the catalogue is generated by abstract interpretation of problems.generate with a symbolic key and symbolic sizes: random "
    "draws are opaque values identified by key and shape, wavelet bases are uninterpreted orthonormal operators, everything else is interpreted "
    "from source. The stored measurements are compared with the sensing operator applied to the stored representation, the sensing operator with "
    "the composition of its factors on an arbitrary vector, the reconstruction map with the sparsifying operator, and the stored signal with "
    "both, as value numbers modulo inverse pairs (FFT, cumulative sum/difference, orthonormal bases). A difference is reported with a "
    "separating point. The name table is matched with the modules, their returned names and the figure lists with the plot branches.")
FLOOR = 10
TRUSTED = ["orthonormality of the discrete wavelet bases at sizes divisible by the decimation", "ifft inverts fft, cumsum inverts diff"]
PK = "cr.sparse._src.problems"
SIZES = {"n": 16, "k": 3, "c": 2, "m": 7, "p": 5, "level": 1}


class Item:
    def __init__(self, name):
        self.name = name
        self.construct = "problem '%s'" % name


def table(I):
    m = I.load(PK + ".problems")
    t = m.scope.vars.get("PROBLEM_MAP")
    if isinstance(t, IP.PyDict):
        out = {}
        for k, v in t.items.items():
            ks = k.args[1] if isinstance(k, T.Term) else k
            out[ks] = v.args[1] if isinstance(v, T.Term) and v.op == "const" else None
        return out
    return None


def run(r):
    ops.reset()
    I = IP.Interp()
    tb = table(I)
    if tb is None:
        # the table may be computed: fall back to what names() returns
        v = I.call(I.get(PK + ".problems", "names"), [], {})
        items = [x.args[1] for x in v.items] if isinstance(v, IP.PyTuple) else []
        tb = {k: None for k in items}
    rel = N.module(PK + ".problems").rel
    names_rule(r, I, tb, rel)
    par.each(r, [Item(k) for k in tb], one, "measurements", timeout=240)


def names_rule(r, I, tb, rel):
    root = os.path.join(loader.SRC, *PK.split(".")) if hasattr(loader, "SRC") else None
    f = loader.find_module(PK + ".problems")
    d = os.path.dirname(f[0])
    mods = sorted(x[:-3] for x in os.listdir(d) if x.endswith(".py"))
    have = set()
    for m in mods:
        tree = loader.parse(os.path.join(d, m + ".py"))
        if m != "problems" and any(isinstance(st, N.FUNCS) and st.name == "generate" for st in tree.body):
            have.add(m)
    used = [v for v in tb.values() if v]
    for k, v in sorted(tb.items()):
        c = "problem '%s'" % k
        if v is None:
            continue
        if v not in have:
            r.refuted("catalogue", c, (rel, 0), "the catalogue maps it to %s, which has no generate function" % v)
        elif used.count(v) > 1:
            r.refuted("catalogue", c, (rel, 0), "module %s is listed more than once" % v)
        else:
            r.proved("catalogue", c, (rel, 0), "module %s exists" % v)
    if used:
        for m in sorted(have):
            if m not in used:
                r.refuted("catalogue", "module %s" % m, (rel, 0), "constructor is not in the catalogue")
    v = I.call(I.get(PK + ".problems", "names"), [], {})
    got = None
    if isinstance(v, IP.PyTuple) and all(isinstance(x, T.Term) and x.op == "const" for x in v.items):
        got = [x.args[1] for x in v.items]
    elif isinstance(v, T.Term) and v.op == "call" and v.args[0] in ("builtins.sorted", "sorted"):
        a = v.args[1][0]
        if a.op == "tuple" and all(x.op == "const" for x in a.args[0]):
            got = [x.args[1] for x in a.args[0]]
    if got is None:
        r.unknown("catalogue", "problems.names", (rel, 0), "result not resolved: %s" % (T.show(v, 3) if isinstance(v, T.Term) else v))
    elif sorted(got) != sorted(tb):
        r.refuted("catalogue", "problems.names", (rel, 0), "names() returns %d names, the catalogue has %d" % (len(got), len(tb)))
    else:
        r.proved("catalogue", "problems.names", (rel, 0), "%d names" % len(got))


def opaque(I):
    """orthonormal wavelet bases and library signals as uninterpreted values"""
    def dwt(I2, f, args, kw, node):
        a = bindargs(f, args, kw)
        n = a.get("n")
        if n is None or "wavelet" not in a:
            return None
        basis = a.get("basis")
        key = "W(%s,%s,%s)" % tuple(T.show(I2.to_term(a[k])) if k in a else "" for k in ("n", "wavelet", "level"))
        o = ops.operand(I2, key, n, n, real=T.TRUE, linear=T.TRUE)
        if isinstance(basis, T.Term) and basis is T.TRUE:
            return o
        if basis is None or basis is T.FALSE:
            c = dict(o.fields)
            c["times"], c["trans"] = o.fields["trans"], o.fields["times"]
            return IP.NT(o.cls, c)
        return None
    def ext(I2, name, args, kw, node=None):
        if name.endswith("wavfile.read"):
            tag = "file(%s)" % T.show(I2.to_term(args[0]), 4)
            return IP.PyTuple([T.sym("rate " + tag), ops.array(tag, num(4608 if "uitar" in tag else 30000), num(2))])
        return None
    I.hooks["ext"] = ext
    def windowed(I2, f, args, kw, node):
        if not f.module.name.startswith("cr.sparse._src.lop"):
            return None
        a = bindargs(f, args, kw)
        T_, m = a.get("T"), a.get("m")
        if not isinstance(T_, IP.NT) or m is None:
            return None
        key = "windowed(%s)" % ",".join(T.show(I2.to_term(a[k]), 9) for k in sorted(a) if k != "T")
        return ops.operand(I2, key, I2.to_term(m), ops.size("width " + key, 1), real=T.TRUE, linear=T.TRUE)
    I.opaque_funcs["windowed_op"] = windowed
    I.opaque_funcs["dwt"] = lambda I2, f, args, kw, node: dwt(I2, f, args, kw, node) if f.module.name.startswith("cr.sparse._src.lop") else None


def bindargs(f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names, args))
    d.update(kw)
    for n, v in list(zip(names[len(names) - len(f.defaults):], f.defaults)):
        d.setdefault(n, v)
    for n, v in (f.kwdefaults or {}).items() if isinstance(f.kwdefaults, dict) else []:
        d.setdefault(n, v)
    return d


def norm(t):
    def g(u):
        if u.op == "app" and u.args[0].op == "sym" and str(u.args[0].args[0]).startswith("W("):
            v = u.args[2]
            p = T._as_prod(v) if False else None
            if v.op == "app" and v.args[0] is u.args[0] and v.args[1] != u.args[1]:
                return v.args[2]
        if u.op == "call" and u.args[0] in ("fft.ifft", "fft.fft"):
            other = "fft.fft" if u.args[0] == "fft.ifft" else "fft.ifft"
            x = u.args[1][0]
            cs = []
            core = x
            if x.op == "mul":
                fs = list(x.args[0]) if isinstance(x.args[0], tuple) else list(x.args)
            c, b = split(x)
            if b is not None and b.op == "call" and b.args[0] == other and b.args[1][1:] == u.args[1][1:] and b.args[2] == u.args[2]:
                return T.mul(c, b.args[1][0])
        if u.op == "cumsum" or u.op == "call" and u.args[0] == "np.cumsum":
            x = u.args[0] if u.op == "cumsum" else u.args[1][0]
            if x.op == "call" and x.args[0] == "np.diff" and dict(x.args[2]).get("prepend") is T.ZERO and len(x.args[1]) == 1:
                return x.args[1][0]
        return u
    for _ in range(4):
        n = inv.bottomup(t, g)
        if n is t:
            return t
        t = n
    return t


def split(x):
    """scalar coefficient and the remaining factor of a product"""
    if x.op == "call":
        return T.ONE, x
    d = T._as_prod(x) if hasattr(T, "_as_prod") else None
    if not isinstance(d, dict):
        try:
            d = dict(d)
        except Exception:  # noqa
            return T.ONE, None
    c, rest = T.ONE, []
    for f, e in d.items():
        if f is None or not isinstance(f, T.Term):
            return T.ONE, None
        if T.is_scalar(f):
            c = T.mul(c, T.power(f, e))
        else:
            rest.append((f, e))
    if len(rest) == 1 and (rest[0][1] == 1 or rest[0][1] is T.ONE):
        return c, rest[0][0]
    return c, None


LOOPS = [0]


class Draw(point.Point):
    def default(self, t):
        if t.op == "sym":
            g = re.match(r"L(\d+)(\.|$)", str(t.args[0]))
            # loops of the constructor define one shared value; loops met while an operator is applied are met again
            # at the next application, so their values are not comparable
            if g and int(g.group(1)) >= LOOPS[0]:
                raise point.Undefined("value computed by a loop")
        return point.Point.default(self, t)

    def draw(self, t):
        name, args, kw = t.args
        kw = dict(kw)
        last = name.rsplit(".", 1)[-1]
        r = point.rng_for(self.salt, t.key)
        if last == "choice":
            n = self.val(args[1])
            sh = kw.get("shape") or args[2]
            k = int(np.prod(np.asarray(self.val(sh)))) if sh.op == "tuple" else self.int_(sh)
            n = int(n) if np.ndim(n) == 0 else np.asarray(n)
            return r.choice(n, size=k, replace=False)
        if last == "permutation":
            n = self.val(args[1])
            return r.permutation(int(n) if np.ndim(n) == 0 else np.asarray(n))
        s = S.shape_of(t)
        if s is None:
            raise point.Undefined("draw of unknown shape")
        s = self.shape(s)
        if last == "uniform":
            return r.rand(*s)
        if last in ("normal",):
            return r.randn(*s)
        if last == "rademacher":
            return np.sign(r.randn(*s))
        if last == "bernoulli":
            return r.rand(*s) < 0.5
        raise point.Undefined("draw %s" % last)

    def call(self, t):
        if t.args[0].startswith("random.") and not t.args[0].endswith("split"):
            return self.draw(t)
        if t.args[0] == "builtins.round" and len(t.args[1]) == 1:
            return np.round(self.val(t.args[1][0]))
        if t.args[0].startswith("wavfile") or "wavfile" in t.args[0]:
            raise point.Undefined("file contents")
        return point.Point.call(self, t)

    def opmat(self, op, m, n):
        A = point.Point.opmat(self, op, m, n)
        if str(op.args[0]).startswith("W(") and m == n:
            q, _ = np.linalg.qr(np.real(A))
            return q
        return A


def points():
    out = []
    for salt in range(2):
        for extra in ({}, {"n": 32, "k": 4, "c": 3, "m": 5}):
            z = dict(SIZES)
            z.update(extra)
            out.append((salt, z))
    return out


def compare(r, rule, c, where, got, want, what, alts=()):
    a = norm(got)
    for w in [want] + list(alts):
        if a is norm(w) or T.equal(a, norm(w)) is True:
            r.proved(rule, c, where, what + ": equal value numbers")
            return
    err = ""
    for salt, z in points():
        P = Draw(salt=salt, sizes={T.sym(k): v for k, v in z.items()}, cplx=True)
        try:
            x = np.asarray(P.val(got))
            ys = [np.asarray(P.val(w)) for w in [want] + list(alts)]
        except point.Undefined as e:
            err = str(e)
            continue
        if any(x.shape == y.shape and np.allclose(x, y, atol=1e-6) for y in ys):
            continue
        y = ys[0]
        d = "shapes %s and %s" % (x.shape, y.shape) if x.shape != y.shape else "e.g. entry %d: %s against %s" % (
            int(np.argmax(np.abs(x - y))), point.fmt(x.ravel()[int(np.argmax(np.abs(x - y)))]), point.fmt(y.ravel()[int(np.argmax(np.abs(x - y)))]))
        r.refuted(rule, c, where, "%s fails at sizes %s: %s" % (what, {k: v for k, v in z.items() if k in "nkcm"}, d))
        return
    r.unknown(rule, c, where, "%s: not decided (%s)" % (what, err or "no separating point; %s // %s" % (T.show(a, 3), T.show(norm(want), 3))))


def one(r, it):
    ops.reset()
    T.CTX.real = False
    I = IP.Interp()
    opaque(I)
    gen = I.get(PK + ".problems", "generate")
    tb = table(IP.Interp()) or {}
    mod = N.module("%s.%s" % (PK, tb.get(it.name))) if tb.get(it.name) else None
    where = (mod.rel if mod else N.module(PK + ".problems").rel, 0)
    kw = {}
    g = I.get("%s.%s" % (PK, tb[it.name]), "generate") if tb.get(it.name) else None
    if isinstance(g, IP.Func):
        where = (g.module.rel, g.node.lineno)
        for p in [x.arg for x in g.node.args.args]:
            if p in ("n", "k", "c", "m", "level"):
                kw[p] = ops.size(p, 1)
            elif p == "scale":
                kw[p] = ops.scalar(p, real=True)
    key = T.sym("key")
    pr = I.call(gen, [const(it.name), key], kw)
    if not isinstance(pr, IP.NT) and g is not None:
        # the dispatch could not be followed: judge the problem's own generator
        r.unknown("dispatch", it.construct, where, "generate was not resolved to a problem record")
        pr = I.call(g, [key], dict(kw))
        if not isinstance(pr, IP.NT):
            pr = I.call(g, [const(it.name), key], dict(kw))
    if not isinstance(pr, IP.NT):
        r.unknown("measurements", it.construct, where, "generate was not resolved to a problem record")
        return
    LOOPS[0] = len(I.loops)
    F = pr.fields
    c = it.construct
    nm = I.to_term(F["name"])
    if nm is const(it.name):
        r.proved("name", c, where, "record carries the catalogue name")
    elif nm.op == "const":
        r.refuted("name", c, where, "the generated record is named %r" % nm.args[1])
    else:
        r.unknown("name", c, where, "name %s" % T.show(nm, 2))

    def app(op, v, d="times"):
        return I.to_term(I.call(I.getattr(F[op], d), [v], {}))
    b = I.to_term(F["b"])
    x = None if I.is_none(F["x"]) else I.to_term(F["x"])
    y = None if I.is_none(F["y"]) else I.to_term(F["y"])
    if x is not None:
        r.guard("measurements", c, lambda: compare(r, "measurements", c, where, b, app("A", x), "b = A x"))
        if y is not None:
            r.guard("signal", c, lambda: compare(r, "signal", c, where, y, app("Psi", x), "y = Psi x"))
    if y is not None:
        r.guard("signal", c + " sensed", lambda: compare(r, "signal", c + " sensed", where, b, app("Phi", y), "b = Phi y"))
    # arbitrary representation
    sh = S.shape_of(x) if x is not None else None
    if sh is None:
        shp = I.getattr(F["Psi"], "shape")
        try:
            d = I.seq_items(shp)[1]
            sh = (I.to_term(d),) if not isinstance(d, IP.PyTuple) else tuple(I.to_term(q) for q in d.items)
        except Exception:  # noqa
            sh = None
    if x is None and y is not None:
        # windowed analysis of several channels: an arbitrary array of that many columns
        sy = S.shape_of(y)
        if sy is not None and sh is not None and len(sy) == 2 and len(sh) == 1:
            sh = sh + (sy[1],)
    if sh is None:
        r.unknown("composition", c, where, "representation of unknown size")
        return
    v = ops.array("v", *sh)
    r.guard("composition", c, lambda: compare(r, "composition", c, where, app("A", v), app("Phi", app("Psi", v)), "A v = Phi Psi v"))
    rec = I.to_term(I.call(F["reconstruct"], [v], {}))
    pv = app("Psi", v)
    r.guard("reconstruct", c, lambda: compare(r, "reconstruct", c, where, rec, pv, "reconstruct(v) = Psi v", [T.real_(pv)] if real_signal(x, b, y) else []))
    figures(r, I, it, F, where)


def real_signal(x, b, y):
    s = y if y is not None else b
    return T.is_real(s) or not has_complex(s)


def has_complex(t):
    return any(u.op == "sym" and u.args[0] == "1j" for u in T.subterms(t)) or any(u.op == "call" and u.args[0].startswith("fft.") and "irfft" not in u.args[0] for u in T.subterms(t))


def figures(r, I, it, F, where):
    c = it.construct
    fig = F.get("figures")
    if not isinstance(fig, IP.PyTuple):
        return
    if I.is_none(F.get("plot")):
        if fig.items:
            r.refuted("figures", c, where, "%d figures are announced but there is no plot function" % len(fig.items))
        return
    for i in range(len(fig.items)):
        e0 = len(I.events)
        ax = T.sym("ax")
        try:
            I.call(F["plot"], [num(i), ax], {})
        except Exception as e:  # noqa
            r.unknown("figures", "%s figure %d" % (c, i), where, "plot: %s" % e)
            continue
        calls = [e for e in I.events[e0:] if "ax" in repr_event(e)]
        draws = [e for e in calls if not any(w in repr_event(e) for w in ("set_title", "set_xlabel", "set_ylabel", "legend", "grid"))]
        if draws:
            r.proved("figures", "%s figure %d" % (c, i), where, "drawn by %d calls" % len(draws))
        elif calls:
            r.refuted("figures", "%s figure %d" % (c, i), where, "plot(%d, ax) draws nothing although the figure %s is announced" % (i, T.show(I.to_term(fig.items[i]))))
        else:
            r.unknown("figures", "%s figure %d" % (c, i), where, "no drawing call seen")


def repr_event(e):
    d = e.data
    try:
        return " ".join(T.show(x, 3) if isinstance(x, T.Term) else str(x) for x in (d if isinstance(d, tuple) else (d,)))
    except Exception:  # noqa
        return str(d)
