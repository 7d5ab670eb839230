"""P06 reported operator-application counts equal the applications performed."""
from .. import interp as IP
from .. import inv
from .. import par
from .. import point
from .. import solve
from .. import term as T
from ..term import num, ONE, ZERO
from .p04 import results, histories
from .p05 import flat, leaves, loop_of, next_of

EXPLANATION = (
    "The effect analysis records every application of the forward and adjoint operator met while a solver is interpreted abstractly, with its path "
    "condition and enclosing loops. A ghost counter per loop accumulates them; inner loops are related to their own counters by constant increments. "
    "Each reported counter must start at the number of applications made before the loop and grow, in every branch of the body, by the applications "
    "the body makes. A mismatch is reported with a history of the recurrence on which the reported and the ghost count differ.")
FLOOR = 40
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py"]


def run(r):
    T.CTX.free_heads = True
    cs = [c for c in solve.table() if c.name in ("lsqr",) or any(k in c.mod for k in ("spgl1", "l1ls", "yall1", "spg"))]
    par.each(r, cs, one, "count")


def counted(an):
    """reported field -> predicate on events"""
    ap = lambda d: lambda e: e.kind == "app" and e.data[0] is T.sym("Phi") and e.data[1] == d
    fn = lambda names: lambda e: e.kind == "apply" and e.data[0].op == "attr" and e.data[0].args[0] is T.sym("F") and e.data[0].args[1] in names
    return {"n_times": ap("times"), "n_trans": ap("trans"), "f_calls": fn(("func", "grad_val")), "g_calls": fn(("grad", "grad_val"))}


class Ghost:
    """per-loop application counts as terms"""

    def __init__(self, an, name, pred):
        self.an, self.name = an, name
        ev = [e for e in an.events if pred(e)]
        self.n = len(ev)
        self.top = ZERO
        self.step = {L: ZERO for L in an.loops}
        self.head = {L: T.sym("ghost.%s.%d" % (name, k)) for k, L in enumerate(an.loops)}
        for h in self.head.values():
            T.CTX.scalars.add(h)
        for e in ev:
            ls = [L for L in e.loops if L in self.step]
            guard = ls and any(e is x for x in ls[-1].ev_cond)
            self.put(ls, list(e.pc), ONE)
            if guard:
                self.put(ls[:-1], [p for p in e.pc if p in ls[-1].pc], ONE)
        # an inner loop contributes its ghost to the enclosing scope
        for L in an.loops:
            if self.total(L) is not ZERO:
                self.put(self.parents(L), list(L.pc), self.head[L])

    def total(self, L):
        """does the loop (or a loop inside it) apply the operator"""
        if self.step[L] is not ZERO:
            return self.step[L]
        for M in self.an.loops:
            if M is not L and L in self.parents(M) and self.step[M] is not ZERO:
                return ONE
        return ZERO

    def parents(self, L):
        return [M for M in getattr(L, "outer", ()) if M in self.step]

    def put(self, ls, pc, w):
        out = ls[-1].pc if ls else ()
        c = [p for p in pc if p not in out]
        t = w
        for p in reversed(c):
            t = T.ite(p, t, ZERO)
        if ls:
            self.step[ls[-1]] = T.add(self.step[ls[-1]], t)
        else:
            self.top = T.add(self.top, t)

    def install(self):
        """make the ghosts part of the recurrences (for histories)"""
        for L in self.an.loops:
            h = self.head[L]
            L.head = IP.PyTuple([L.head, h])
            L.init = IP.PyTuple([L.init, ZERO])
            L.body = IP.PyTuple([L.body, T.add(h, self.step[L])])

    def solve_inner(self, L):
        """ghost of an inner loop through one of its own counters"""
        s = self.reduce(self.step[L])
        if not T.is_num(s):
            return None
        if s is ZERO:
            return ZERO
        for a, i, b in zip(flat(self.an, L.head), flat(self.an, L.init), flat(self.an, L.body)):
            if a.op == "sym" and a is not self.head[L]:
                d = T.sub(b, a)
                if T.is_num(d) and d is not ZERO and d.op == "num":
                    return T.mul(s, T.div(T.sub(a, i), d))
        return None

    def reduce(self, t):
        m = {}
        for L in self.an.loops:
            if T.depends(t, self.head[L]):
                e = self.solve_inner(L)
                if e is not None:
                    m[self.head[L]] = e
        return T.subst(t, m) if m else t


def under(t, cond):
    """t on a path with the given conditions"""
    for c in cond:
        for a, v in facts(c):
            t = T.assume(t, a, v)
    return t


def facts(c):
    if c.op == "not":
        if c.args[0].op == "or":
            return [q for x in c.args[0].args[0] for q in facts(T.not_(x))] if isinstance(c.args[0].args[0], tuple) else [(c.args[0], False)]
        return [(c.args[0], False)]
    out = [(c, True)]
    if c.op == "and" and isinstance(c.args[0], tuple):
        for x in c.args[0]:
            out += facts(x)
    return out


def one(r, c):
    an = solve.Analysed(c)
    for name, pred in counted(an).items():
        for cond, rec in results(an):
            if not (isinstance(rec, IP.NT) and any(n == name for n, _ in rec.cls.fields)):
                continue
            E = an.I.to_term(an.I.getattr(rec, name))
            r.guard("count", c.construct + " " + name, lambda: decide(r, c, an, name, pred, cond, E), an.where)


def decide(r, c, an, name, pred, cond, E0):
    G = Ghost(an, name, pred)
    con = c.construct + " " + name
    ok, why = True, []
    for c2, E in leaves(E0):
        cs = cond + c2
        o, w = proof(an, G, cs, E)
        ok = ok and o
        why.append(w)
    if any(w.startswith("always wrong") for w in why):
        r.refuted("count", con, an.where, "; ".join(why)[:400])
        return
    if ok:
        r.proved("count", con, an.where, "%d application sites; %s" % (G.n, "; ".join(why)))
        return
    # histories of the recurrence extended with the ghosts
    saved = [(L, L.head, L.init, L.body) for L in an.loops]
    G.install()
    try:
        total = G.top
        kind, w = point.separate(E0, total, histories(an, 160), 1e-9)
    finally:
        for L, h, i, b in saved:
            L.head, L.init, L.body = h, i, b
    if kind == "differ":
        r.refuted("count", con, an.where, "reported %s, applications performed %s (steps %s); %s" % (point.fmt(w[1]), point.fmt(w[2]), w[0].steps, "; ".join(why)[:300]))
    else:
        r.unknown("count", con, an.where, "%s; histories: %s %s" % ("; ".join(why)[:300], kind, w))


def proof(an, G, cond, E):
    top = under(G.top, cond)
    L = loop_of(an, E)
    if L is None:
        t = G.reduce(top)
        return T.equal(t, E) is True, "reported %s, applied %s" % (T.show(E, 4), T.show(t, 5))
    hs = [h for h in flat(an, L.head) if h.op == "sym" and T.depends(E, h)]
    if len(hs) != 1 or not T.is_num(T.sub(E, hs[0])):
        return False, "reported count %s" % T.show(E, 5)
    h = hs[0]
    off = T.sub(E, h)
    i0, b = next_of(an, L, h)
    base = T.add(i0, off)
    rest = T.sub(top, G.head[L]) if T.depends(top, G.head[L]) else top
    rest = G.reduce(rest)
    s = G.reduce(G.step[L])
    d = T.sub(b, h)
    eb = T.equal(under(base, cond), rest) is True
    es = T.equal(d, s, limit=8) is True
    w = "starts at %s, applied outside the loop %s" % (T.show(base, 5), T.show(rest, 5)) if not eb else \
        "grows by %s, applied per step %s" % (T.show(d, 6), T.show(s, 6))
    if eb and not es and T.is_num(T.sub(d, s)) or es and not eb and T.is_num(T.sub(under(base, cond), rest)):
        return False, "always wrong: " + w
    if not (eb and es):
        return False, w
    return True, "starts at %s, per step %s" % (T.show(base, 4), T.show(s, 6))
