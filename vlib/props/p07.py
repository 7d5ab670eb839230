"""P07 compiled variants: same function, compile-time arguments declared, traceable."""
import ast

from .. import bta
from .. import loader
from .. import names as N
from .. import par
from . import p13

EXPLANATION = (
    "Every name bound to a compiled function is resolved through imports, aliases and decorators to the function it compiles and compared with "
    "the plain function of the same name in the same namespace. Each compiled function is then run through an interprocedural binding-time "
    "analysis (closures, records, loops, branches, vmap, nested compiled calls): parameters not declared compile-time are traced, everything "
    "jax computes under the trace is traced, shapes and dtypes are known. A traced value that reaches a Python branch, boolean operator, int()/"
    "range(), array shape, slice bound, numpy/math call, call position or a nested compile-time argument is a violation, as are prints or "
    "writes to outer state during the trace and compile-time parameters used as arrays. The same analysis is applied to the maps of every "
    "operator constructor that declares its operators jit-safe and to the entries of smooth and prox capable functions.")
FLOOR = 200
TRUSTED = ["binding-time table of jax/numpy primitives in vlib/bta.py"]


class Job:
    def __init__(self, kind, mod, name, mode, construct):
        self.kind, self.mod, self.name, self.mode, self.construct = kind, mod, name, mode, construct


def fresh(m):
    B = bta.BTA()
    B.active = []
    B.stack = [(m, "<module>")]
    return B


def run(r):
    js = []
    for m in p13.mods():
        for name in sorted(m.ns):
            B = fresh(m)
            try:
                v = B.modget(m, name)
            except RecursionError:
                continue
            if name.endswith("_jit") and name[:-4] in m.ns:
                r.guard("same-function", "%s.%s" % (m.name, name), lambda: same(r, m, name, v, B.modget(m, name[:-4])))
            own = any(e[0] in ("val", "func") for e in m.ns[name])
            if own and isinstance(v, bta.Fn) and v.statics is not None:
                r.guard("declared", "%s.%s" % (m.rel, name), lambda: declared(r, m, name, v))
                for mode in ("all", "required"):
                    js.append(Job("jit", m.name, name, mode, "%s:%s (%s arguments)" % (m.rel, name, mode)))
    for pub, kind in (("cr.sparse.lop", "op"), ("cr.sparse.opt", "opt"), ("cr.sparse.fom", "opt")):
        m = N.module(pub)
        if m is None:
            continue
        for name in public(m):
            v = fresh(m).modget(m, name)
            if isinstance(v, bta.Fn):
                js.append(Job(kind, pub, name, "closures", "%s.%s" % (pub.replace("cr.sparse.", ""), name)))
    seen = set()
    for m in p13.mods():
        if "._src" in m.name:
            continue
        for name in public(m):
            v = fresh(m).modget(m, name)
            if isinstance(v, bta.Fn) and id(v.node) not in seen and v.mod.name.startswith("cr.sparse."):
                seen.add(id(v.node))
                js.append(Job("plain", m.name, name, "plain", "%s.%s" % (m.name.replace("cr.sparse.", ""), name)))
    par.each(r, js, one, "traceable", timeout=60)
    r.assumptions.append("results of calls whose target is unknown are assumed to need no value")


def public(m, seen=()):
    out = {n for n in m.ns if not n.startswith("_")}
    for s in m.stars:
        mm = N.module(s)
        if mm is not None and s not in seen:
            out |= set(public(mm, tuple(seen) + (m.name,)))
    return sorted(out)


def where(v):
    return (v.mod.rel, v.node.lineno)


def same(r, m, name, v, w):
    con = "%s.%s" % (m.name, name)
    if not isinstance(w, bta.Fn):
        r.unknown("same-function", con, (m.rel, 0), "plain function not resolved")
        return
    if isinstance(v, bta.Mapped) and isinstance(v.f, bta.Par):
        f = v.f
        if isinstance(f.f, bta.Fn) and (f.args or f.kw):
            r.refuted("same-function", con, where(w), "the compiled variant fixes %s of %s" % (", ".join(f.kw) or "arguments", f.f.node.name))
            return
    if not isinstance(v, bta.Fn):
        r.unknown("same-function", con, where(w), "compiled function not resolved")
        return
    if v.node is w.node:
        r.proved("same-function", con, where(w), "both names denote %s" % w.node.name)
        return
    if forwards(w.node, v.node.name) or forwards(v.node, w.node.name):
        r.proved("same-function", con, where(w), "one forwards to the other")
        return
    if ast.dump(ast.Module(nodoc(v.node.body), [])) == ast.dump(ast.Module(nodoc(w.node.body), [])) and ast.dump(v.node.args) == ast.dump(w.node.args):
        r.proved("same-function", con, where(w), "identical definitions")
        return
    if v.statics is None or getattr(v.node, "name", "_").startswith("_") or v.node.name == name:
        r.unknown("same-function", con, where(w), "different definitions")
        return
    r.refuted("same-function", con, where(v), "%s compiles %s, not %s" % (name, v.node.name, w.node.name))


def nodoc(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[1:]
    return body


def forwards(fn, callee):
    if isinstance(fn, ast.Lambda):
        return False
    b = nodoc(fn.body)
    if len(b) != 1 or not isinstance(b[0], ast.Return) or not isinstance(b[0].value, ast.Call):
        return False
    c = b[0].value
    nm = c.func.id if isinstance(c.func, ast.Name) else getattr(c.func, "attr", None)
    if nm is None or nm not in (callee, callee + "_jit"):
        return False
    ps = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
    got = [a.id if isinstance(a, ast.Name) else None for a in c.args]
    kws = {k.arg: (k.value.id if isinstance(k.value, ast.Name) else None) for k in c.keywords}
    return got == ps[:len(got)] and all(kws.get(p) == p for p in ps[len(got):])


def declared(r, m, name, v):
    """the declared compile-time positions exist"""
    con = "%s:%s" % (m.rel, name)
    pos = [a.arg for a in v.node.args.posonlyargs + v.node.args.args]
    allp = pos + [a.arg for a in v.node.args.kwonlyargs]
    nums, nms = v.statics
    bad = [x for x in nms if x not in allp and not v.node.args.kwarg] + [i for i in nums if i >= len(pos) and not v.node.args.vararg]
    if bad:
        r.refuted("declared", con, (m.rel, v.node.lineno), "no parameter %s in %s(%s)" % (bad[0], v.node.name, ", ".join(allp)))
    else:
        r.proved("declared", con, (m.rel, v.node.lineno), "compile-time parameters %s exist" % (sorted(nms),))


def one(r, j):
    m = N.module(j.mod)
    B = fresh(m)
    f = B.modget(m, j.name)
    if j.kind == "jit":
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        req = set(pos[:len(pos) - nd]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        names = pos + [x.arg for x in a.kwonlyargs]
        kw = {}
        for p in names:
            if j.mode == "all" or p in req:
                kw[p] = bta.St(par=p) if p in f.statics[1] else bta.Tr({p})
        B.trace = 1
        B.call_fn(bta.Fn(f.node, f.env, f.mod), [], kw, f.node)
        report(r, j, B, f)
        for p, us in B.uses.items():
            if p in f.statics[1]:
                u = us[0]
                r.refuted("array-parameter", "%s:%s" % (j.construct, p), (u[0], u[2]), "compile-time parameter %s is used as an array in %s (%s): arrays are not hashable" % (p, u[1], u[3]))
        if not any(p in f.statics[1] for p in B.uses):
            r.proved("array-parameter", j.construct, where(f), "no compile-time parameter is used as an array")
        return
    if j.kind == "plain":
        a = f.node.args
        B.call_fn(bta.Fn(f.node, f.env, f.mod, f.bound, f.statics), [], {x.arg: bta.St() for x in a.posonlyargs + a.args + a.kwonlyargs}, f.node)
        report(r, j, B, f)
        return
    # maps held by a constructed record
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for mode in ("all", "required"):
        nd = len(a.defaults)
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = set(pos[:len(pos) - nd])
        B = fresh(m)
        f = B.modget(m, j.name)
        kw = {p: bta.St() for p in names if mode == "all" or p in req}
        v = B.call_fn(bta.Fn(f.node, f.env, f.mod), [], kw, f.node)
        B.sinks, B.effects = [], []
        B.trace = 1
        jj = Job(j.kind, j.mod, j.name, mode, "%s (%s arguments)" % (j.construct, mode))
        if j.kind == "op":
            if not (isinstance(v, bta.Rec) and v.node.name == "Operator"):
                return
            safe = v.fields.get("jit_safe")
            if not (isinstance(safe, bta.St) and safe.const is True):
                continue
            for fld in ("times", "trans"):
                B.call(v.fields[fld], [bta.Tr({"x"})], {}, f.node, f.env)
        else:
            if isinstance(v, bta.Rec):
                todo = [(n, x) for n, x in v.fields.items() if isinstance(x, (bta.Fn, bta.Par, bta.Multi, bta.Mapped))]
            elif isinstance(v, bta.Fn):
                todo = [("", v)]
            elif isinstance(v, bta.Multi):
                todo = [("", x) for x in v.items]
            else:
                return
            for n, x in todo:
                g = x.f if isinstance(x, bta.Par) else x
                k = 1
                if isinstance(g, bta.Fn):
                    ga = g.node.args
                    k = len(ga.args) - len(ga.defaults) - (1 if g.bound is not None else 0)
                B.call(x, [bta.Tr({"x"})] * max(1, min(k, 3)), {}, f.node, f.env)
        report(r, jj, B, f)


def report(r, j, B, f):
    seen = set()
    for s in B.sinks:
        k = (s.rel, s.fn, s.msg)
        if k in seen:
            continue
        seen.add(k)
        r.refuted("traceable", "%s:%s:%s" % (j.construct, s.fn, s.msg[:60]), (s.rel, s.line), "in %s: %s%s" % (
            s.fn, s.msg, "; it depends on %s" % ", ".join(sorted(s.org)) if s.org else ""))
    for (m, fn), line, what, tr in B.effects:
        if tr and j.kind == "jit":
            k = (m.rel, fn, what)
            if k not in seen:
                seen.add(k)
                r.refuted("traceable", "%s:%s:%s" % (j.construct, fn, what), (m.rel, line), "in %s: %s happens while tracing, not when the compiled function runs" % (fn, what))
    if not seen:
        r.proved("traceable", j.construct, where(f), "%d functions analysed, no construct needs a traced value" % len(B.functions))
    if B.steps > 59000:
        r.unknown("traceable", j.construct, where(f), "analysis budget reached")
