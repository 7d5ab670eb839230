"""P05 iteration limits and honest iteration counts."""
from .. import interp as IP
from .. import inv
from .. import ops
from .. import par
from .. import point
from .. import solve
from .. import term as T
from ..term import num, ONE, ZERO
from .p04 import results, histories

EXPLANATION = (
    "Every iterative solver is analysed with symbolic data and a symbolic iteration limit; its main loop is extracted as a recurrence (initial "
    "state, next state, guard). The reported iteration count must be an affine function of one loop-carried counter that starts at the documented "
    "value and grows by the iterations of one loop step in every branch of the body; substituting limit + d (d >= 0) for the counter must make the "
    "guard false, and substituting limit - step must not. A failed obligation is reported with a history of the recurrence that exceeds the limit "
    "or miscounts, or with the guard as it simplifies.")
FLOOR = 120
TRUSTED = ["semantics table of numpy/jax primitives in vlib/prims.py"]


def run(r):
    T.CTX.free_heads = True
    par.each(r, [c for c in solve.table() if "first" in c.kw], one, "limit")


def flat(an, v):
    return [x if isinstance(x, T.Term) else an.I.to_term(x) for x in IP._flat(v)]


def limit_of(c):
    l = c.kw.get("limit", "N")
    return num(l) if isinstance(l, int) else ops.size(l)


def loop_of(an, E):
    for L in an.loops:
        hs = [h for h in flat(an, L.head) if h.op == "sym"] + ([L.extra["index"]] if "index" in L.extra else [])
        for h in hs:
            if T.depends(E, h):
                return L
    return None


def next_of(an, L, h):
    idx = L.extra.get("index")
    if h is idx:
        lo = L.extra["range"].args[0] if L.kind == "lax.fori_loop" else ZERO
        return lo, T.add(h, ONE)
    for a, i, b in zip(flat(an, L.head), flat(an, L.init), flat(an, L.body)):
        if a is h:
            return i, b
    return None, None


def leaves(E):
    """(conditions, value) of a nested case distinction"""
    out = []

    def go(t, cond):
        c = next((x.args[0] for x in T.subterms(t) if x.op == "ite"), None)
        if c is None or len(cond) > 8:
            out.append((cond, t))
            return
        for v in (True, False):
            u = T.assume(t, c, v)
            if u is t:
                out.append((cond, t))
                return
            go(u, cond + [c if v else T.not_(c)])
    go(E, [])
    return out


def one(r, c):
    an = solve.Analysed(c)
    N = limit_of(c)
    step = c.kw.get("step", 1)
    first = c.kw["first"]
    main = outermost(an)
    if main is None:
        r.unknown("limit", c.construct, an.where, "no loop found")
        return
    Es = []
    for cond, rec in results(an):
        if isinstance(rec, IP.NT) and any(n == "iterations" for n, _ in rec.cls.fields):
            for c2, e in leaves(an.I.to_term(an.I.getattr(rec, "iterations"))):
                Es.append((cond + c2, e))
    if not Es:
        counters = [h for h in flat(an, main.head) if h.op == "sym" and T.sub(next_of(an, main, h)[1], h) is num(step)]
        good = [h for h in counters if guard_false(main, h, h, N)]
        if good:
            r.proved("limit", c.construct, an.where, "guard of %s is false once %s reaches %s" % (main, T.show(good[0]), T.show(N)))
        else:
            witness(r, c, an, [], None, main, N, first, step, "limit")
        return
    for cond, E in Es:
        L = loop_of(an, E) or main
        for rule, ok, why in obligations(an, L, E, N, first, step):
            if ok:
                r.proved(rule, c.construct, an.where, why)
            else:
                witness(r, c, an, cond, E, L, N, first, step, rule, why)


def outermost(an):
    ls = [L for L in an.loops if L.cond is not None]
    for L in ls:
        if L.kind != "for":
            return L
    return ls[0] if ls else None


def settle(g):
    """decide comparisons of sign-definite quantities"""
    def f(x):
        if x.op == "cmp" and x.args[2] is ZERO:
            o, q = x.args[0], x.args[1]
            if T.nonneg(q):
                if o == "lt":
                    return T.FALSE
                if o in ("le", "eq") and positive(q):
                    return T.FALSE
            if T.nonneg(T.neg(q)):
                if o == "le":
                    return T.TRUE
                if o in ("lt", "eq") and positive(T.neg(q)):
                    return T.TRUE if o == "lt" else T.FALSE
        return None
    return inv.bottomup(g, f)


def positive(q):
    if q.op == "num":
        return q.args[0] > 0
    if q.op == "sum":
        return T.nonneg(q) and any(m is ONE and c > 0 for m, c in q.args[0])
    return False


def obligations(an, main, E, N, first, step):
    if loop_of(an, E) is not main:
        if T.is_num(E) and E is num(first):
            yield "count", True, "no loop step on this path"
            return
        for rule in ("count", "limit"):
            yield rule, False, "reported count %s does not come from the main loop" % T.show(E, 5)
        return
    hs = [h for h in flat(an, main.head) if h.op == "sym" and T.depends(E, h)]
    if "index" in main.extra and T.depends(E, main.extra["index"]):
        hs.append(main.extra["index"])
    if len(hs) != 1 or not T.is_num(T.sub(E, hs[0])):
        for rule in ("count", "limit"):
            yield rule, False, "reported count is %s" % T.show(E, 5)
        return
    h = hs[0]
    off = T.sub(E, h)
    i0, b = next_of(an, main, h)
    yield "count starts", T.equal(T.add(i0, off), num(first)) is True, "%s starts at %s" % (T.show(E), T.show(T.add(i0, off), 5))
    d = T.sub(b, h)
    yield "count grows", T.equal(d, num(step)) is True, "per loop step %s grows by %s" % (T.show(E), T.show(d, 5))
    yield "limit", guard_false(main, h, E, N), "guard of %s with %s >= %s" % (main, T.show(E), T.show(N))
    g = settle(T.subst(main.cond, {h: T.sub(T.sub(N, num(step)), off)}))
    if g is T.FALSE:
        yield "limit attainable", False, "guard of %s is false already at %s" % (main, T.show(T.sub(N, num(step))))
    else:
        yield "limit attainable", True, "guard of %s does not fail below the limit by itself" % main


def guard_false(L, h, E, N):
    """no state with E >= N satisfies the guard"""
    d = ops.size("beyond", 0)
    off = T.sub(E, h)
    g = settle(T.subst(L.cond, {h: T.sub(T.add(N, d), off)}))
    if g is T.FALSE:
        return True
    for asg, (x,) in T.cases(g, limit=6):
        if settle(x) is not T.FALSE:
            return False
    return True


def ignores(an, main, N):
    """the loop runs the same way whatever the limit is"""
    if T.is_num(N) or main.cond is None or settle(main.cond) is T.FALSE:
        return False
    ts = [main.cond] + flat(an, main.init) + flat(an, main.body) + list(an_outer(main))
    for L in an.loops:
        if L is not main and L.cond is not None:
            ts += [L.cond] + flat(an, L.init) + flat(an, L.body)
    if "range" in main.extra and isinstance(main.extra["range"], T.Term):
        ts.append(main.extra["range"])
    return not any(T.depends(t, N) for t in ts)


def an_outer(L):
    return [p for p in getattr(L, "pc", ()) if isinstance(p, T.Term)]


def witness(r, c, an, cond, E, main, N, first, step, rule, why=""):
    if rule == "limit attainable":
        r.refuted(rule, c.construct, an.where, why)
        return
    if rule == "limit" and ignores(an, main, N):
        r.refuted(rule, c.construct, an.where, "%s: neither the guard of the loop nor anything it carries depends on the limit %s" % (why, T.show(N)))
        return
    last = "none computed"
    for P in histories(an, 120):
        lim = None
        try:
            lim = P.int_(N)
            P.BOUND = max(24, 2 * lim + 3) if lim <= 40 else lim + 3
            if not all(bool(P.val(x)) for x in cond):
                continue
            heads = [h for h in flat(an, main.head) if h.op == "sym"]
            for h in heads:
                P.val(h)
                break
            k = P.steps.get(main.label)
            if k is None:
                continue
            if E is not None:
                got = P.val(E)
                if rule in ("count", "count starts", "count grows") and abs(float(got) - (first + step * k)) > 1e-9:
                    r.refuted(rule, c.construct, an.where, "%s; after %d loop steps the reported count is %s, not %s" % (why, k, point.fmt(got), first + step * k))
                    return
            if rule == "limit" and first + step * k > max(lim, first) + (step - 1):
                r.refuted(rule, c.construct, an.where, "%s; limit %d, %d iterations performed" % (why, lim, first + step * k))
                return
            last = "agree"
        except inv.TooLong as e:
            if e.label == main.label and lim is not None and first + step * e.steps > max(lim, first) + (step - 1):
                r.refuted(rule, c.construct, an.where, "%s; limit %s, still iterating after %d steps" % (why, lim, e.steps))
                return
        except point.Undefined as e:
            last = str(e)
        except (FloatingPointError, ValueError, ZeroDivisionError, TypeError, IndexError, OverflowError) as e:
            last = "%s: %s" % (type(e).__name__, e)
    r.unknown(rule, c.construct, an.where, "%s; histories: %s" % (why, last))
