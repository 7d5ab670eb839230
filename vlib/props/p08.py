"""P08 random keys: single use, no other source of randomness."""
import ast

from .. import bta
from .. import keys as KY
from .. import names as N
from .. import par
from . import p13

EXPLANATION = (
    "Every function and method of the package is analysed with opaque parameters by an interprocedural typestate analysis of random keys: keys "
    "are identities that flow through assignments, tuples, records, closures, indexing of split results, loops (two symbolic iterations), "
    "vmap/scan/while/cond bodies and calls into the package and cr.nimble. A draw or split consumes the identity; a second consumption on the "
    "same path, a key index beyond the number of split keys, a whole array of keys used next to one of its members, a draw from a constant key "
    "in a function that receives a key, or any use of a global generator is a violation.")
FLOOR = 150
TRUSTED = ["list of jax.random functions that consume their key (all but PRNGKey, fold_in and key accessors)"]


class Job:
    def __init__(self, mod, qual, node, cls, construct):
        self.mod, self.qual, self.node, self.cls, self.construct = mod, qual, node, cls, construct


def functions(m):
    out = []
    for st in m.tree.body:
        if isinstance(st, N.FUNCS):
            out.append((st.name, st, None))
        elif isinstance(st, ast.ClassDef):
            for x in st.body:
                if isinstance(x, N.FUNCS):
                    out.append((st.name + "." + x.name, x, st))
        elif isinstance(st, (ast.If, ast.Try)):
            for x in ast.walk(st):
                if isinstance(x, N.FUNCS):
                    out.append((x.name, x, None))
    return out


def run(r):
    js = []
    for m in p13.mods():
        for q, node, cls in functions(m):
            js.append(Job(m.name, q, node, cls, "%s:%s" % (m.rel, q)))
    chunk = [Chunk(js[i::16]) for i in range(16)]
    par.each(r, chunk, lambda q, c: [q.guard("single-use", j.construct, lambda j=j: one(q, j)) for j in c.jobs], "single-use", timeout=200)
    r.assumptions.append("keys stored in containers the analysis cannot index are treated as fresh")


class Chunk:
    def __init__(self, jobs):
        self.jobs = jobs
        self.construct = "functions"


def one(r, j):
    m = N.module(j.mod)
    B = KY.Keys()
    B.active = []
    B.hold = []
    B.stack = [(m, "<module>")]
    a = j.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    kw = {p: KY.Root(p) for p in names}
    if j.cls is not None and names and names[0] == "self":
        o = bta.Obj(m, j.cls)
        kw["self"] = o
    B.call_fn(bta.Fn(j.node, B.modenv(m), m), [], kw, j.node)
    # returned closures (operators, functions) may draw later: not followed
    w = (m.rel, j.node.lineno)
    seen = set()
    for c in B.conflicts:
        k = (c.rel, c.line)
        if k in seen:
            continue
        seen.add(k)
        r.refuted("single-use", j.construct, (c.rel, c.line), "%s [call chain %s]" % (c.msg, " > ".join(c.chain[1:])))
    if not B.conflicts:
        r.proved("single-use", j.construct, w, "%d draws, each key consumed once" % B.draws)
    for (mm, fn), line, name in B.ambient[:1]:
        r.refuted("ambient", j.construct, (mm.rel, line), "%s in %s draws from a global generator" % (name, fn))
    if not B.ambient:
        r.proved("ambient", j.construct, w, "no global generator")
    kp = [p for p in names if KY.is_key(p)]
    if kp:
        from . import p09
        E, v = p09.analyse(j)
        st = [e for e in E.found if e.kind in ("module", "class")]
        for e in st[:1]:
            r.refuted("stateless", j.construct, (e.rel, e.line), "the result depends on earlier calls: %s in %s" % (e.msg, e.fn))
        if not st:
            r.proved("stateless", j.construct, w, "no state survives the call")
    if kp and B.constants:
        (mm, fn), line, lab = B.constants[0]
        r.refuted("constant-key", j.construct, (mm.rel, line), "a function that receives %s draws from a constant key in %s" % (kp[0], fn))
    elif kp:
        r.proved("constant-key", j.construct, w, "no draw from a constant key")
