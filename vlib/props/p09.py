"""P09 purity: no store into caller-owned or module-owned objects, no unrequested I/O."""
import ast

from .. import bta
from .. import effects as EF
from .. import names as N
from .. import par
from . import p08, p13

EXPLANATION = (
    "Every function, method and nested function of the package is analysed with parameters that denote caller-owned objects. An interprocedural "
    "ownership analysis follows attributes, elements, views and aliases of those objects and of module-level and class-level mutable objects "
    "through assignments, calls into the package and cr.nimble, closures and loops. Every store (subscript or attribute assignment, augmented "
    "assignment, deletion, mutating method, out= argument, in-place library routine), every global or nonlocal rebinding, every change of "
    "process-wide settings and every input/output call is located and attributed; a store into an object the function does not own, state kept "
    "in a returned closure, or input/output in a function that is not a reporting facility is a violation.")
FLOOR = 300
TRUSTED = ["lists of mutating methods, aliasing library routines and I/O entry points", "a progress tracker passed by the caller may do what it likes"]

REPORTING = ("print", "plot", "analyze", "analyse", "show", "display", "describe", "tracker", "savefig", "save", "report", "log", "__call__", "__str__", "__repr__")


def reporting(rel, qual):
    last = qual.split(".")[-1].lower()
    if "/plots/" in rel or rel.endswith("tracker.py") or "/tools/trials" in rel:
        return True
    return any(w in last for w in REPORTING[:11])


def run(r):
    js = []
    for m in p13.mods():
        for q, node, cls in p08.functions(m):
            js.append(p08.Job(m.name, q, node, cls, "%s:%s" % (m.rel, q)))
    chunk = [p08.Chunk(js[i::16]) for i in range(16)]
    par.each(r, chunk, lambda q, c: [q.guard("stores", j.construct, lambda j=j: one(q, j)) for j in c.jobs], "stores", timeout=200)
    for m in p13.mods():
        module_level(r, m)


def analyse(j):
    m = N.module(j.mod)
    B = EF.Effects()
    B.modrefs = {}
    B.stack = [(m, "<module>")]
    a = j.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    kw = {p: EF.Ref(("param", p), p) for p in names}
    if j.cls is not None and names and names[0] in ("self", "cls"):
        kw[names[0]] = bta.Obj(m, j.cls)
    f = bta.Fn(j.node, B.modenv(m), m)
    B.executed.add(id(j.node))
    v = B.call_fn(f, [], kw, j.node)
    # functions created but not called: the caller will call them
    for _ in range(6):
        todo = [x for k, x in B.created.items() if k not in B.executed]
        if not todo:
            break
        for g in todo:
            B.executed.add(id(g.node))
            ga = g.node.args
            gk = {x.arg: EF.Ref(("param", x.arg), x.arg) for x in ga.posonlyargs + ga.args + ga.kwonlyargs}
            nd = ga.defaults
            for x in (ga.posonlyargs + ga.args)[len(ga.posonlyargs + ga.args) - len(nd):] if nd else []:
                gk.pop(x.arg)            # name=value idiom binding captured values
            B.stack.append((m, j.qual))
            try:
                B.call_fn(g, [], gk, g.node)
            finally:
                B.stack.pop()
    return B, v


def one(r, j):
    B, v = analyse(j)
    m = N.module(j.mod)
    w = (m.rel, j.node.lineno)
    bad = set()
    for e in B.found:
        if e.kind == "io":
            continue
        k = (e.rel, e.line)
        if k in bad:
            continue
        bad.add(k)
        r.refuted("stores", j.construct, (e.rel, e.line), "%s in %s [call chain %s]" % (e.msg, e.fn, " > ".join(e.chain)))
    if not bad:
        r.proved("stores", j.construct, w, "%d stores, none into an object owned by the caller or a module" % B.stores)
    esc = {id(f.node) for f in EF.closures(v)}
    cap = [c for c in B.captured if id(c[0]) in esc]
    for fn, (mm, q), line, msg in cap[:1]:
        r.refuted("closure-state", j.construct, (mm.rel, line), "the returned function %s keeps state between calls: %s" % (q, msg))
    if not cap:
        r.proved("closure-state", j.construct, w, "returned functions keep no state")
    io = [e for e in B.found if e.kind == "io"]
    if reporting(m.rel, j.qual):
        return
    for e in io[:1]:
        r.refuted("io", j.construct, (e.rel, e.line), "%s is called in %s [call chain %s]" % (e.msg, e.fn, " > ".join(e.chain)))
    if not io:
        r.proved("io", j.construct, w, "%d call sites, no input/output" % B.callsites)


def module_level(r, m):
    """importing a module has no effect beyond its definitions"""
    B = EF.Effects()
    B.modrefs = {}
    B.stack = [(m, "<import>")]
    env = B.modenv(m)
    for st in m.tree.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            def go(st=st):
                B.eval(st.value, bta.Env(env, m, None))
            try:
                go()
            except Exception:  # noqa
                pass
    bad = [e for e in B.found if e.kind == "io" or "process-wide" in e.msg]
    for e in bad[:1]:
        r.refuted("import", m.rel, (e.rel, e.line), "importing the module runs %s" % e.msg)
    if not bad:
        r.proved("import", m.rel, (m.rel, 1), "import has no side effect")
