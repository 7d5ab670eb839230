"""Record types of locals, parameters and results by propagation through
assignments, calls, loop and branch combinators."""
import ast

from . import names as N

NT = {"_replace", "_asdict", "_fields", "_make", "count", "index", "_field_defaults"}
WHOLE = {"jax.lax.while_loop": 2, "jax.lax.fori_loop": 3}


class Types:
    def __init__(self, mods):
        self.mods = mods
        self.param = {}          # (id(fn), name) -> set of types
        self.assign = {}         # id(fn) or module -> name -> [(scope, expr, path)]
        self.rets = {}           # id(fn) -> [(scope, expr)]
        self.scopes = {}
        self.calls = []
        self.busy = set()
        for m in mods:
            self.collect(m)
        for _ in range(6):
            if not self.propagate():
                break

    # ---------------------------------------------------------- collect
    def collect(self, m):
        def cb(sc, e):
            if isinstance(e, ast.Call):
                self.calls.append((sc, e))
            if isinstance(e, ast.Lambda):
                self.rets[id(e)] = [(N.Scope(m, e, sc), e.body)]
        N.visit(m, cb)
        self.stm(m, m.tree.body, N.Scope(m, None, None), None)

    def stm(self, m, body, sc, fn):
        key = id(fn) if fn is not None else m.name
        tab = self.assign.setdefault(key, {})
        for st in N.live_blocks(body):
            if isinstance(st, N.FUNCS):
                self.stm(m, st.body, N.Scope(m, st, sc), st)
                continue
            if isinstance(st, ast.ClassDef):
                for x in st.body:
                    if isinstance(x, N.FUNCS):
                        self.stm(m, x.body, N.Scope(m, x, sc, st), x)
                continue
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    self.target(tab, t, sc, st.value, ())
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.target(tab, st.target, sc, st.value, ())
            elif isinstance(st, ast.AugAssign):
                self.target(tab, st.target, sc, None, ())
            elif isinstance(st, (ast.For, ast.AsyncFor)):
                self.target(tab, st.target, sc, None, ())
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                for i in st.items:
                    if i.optional_vars is not None:
                        self.target(tab, i.optional_vars, sc, None, ())
            elif isinstance(st, ast.Return) and fn is not None:
                self.rets.setdefault(id(fn), []).append((sc, st.value))
            for f in ("body", "orelse", "finalbody"):
                b = getattr(st, f, None)
                if isinstance(b, list):
                    self.stm(m, [x for x in b if isinstance(x, ast.stmt)], sc, fn)
            for h in getattr(st, "handlers", []) or []:
                self.stm(m, h.body, sc, fn)

    def target(self, tab, t, sc, value, path):
        if isinstance(t, ast.Name):
            tab.setdefault(t.id, []).append((sc, value, path))
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(x, ast.Starred) for x in t.elts)
            for i, x in enumerate(t.elts):
                self.target(tab, x, sc, None if star else value, path + ((i, len(t.elts)),))
        elif isinstance(t, ast.Starred):
            self.target(tab, t.value, sc, None, path)

    # -------------------------------------------------------- propagate
    def propagate(self):
        self.memo = {}
        changed = False

        def give(fn, i, ts, kw=None):
            nonlocal changed
            if not ts:
                return
            a = fn.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            if kw is not None:
                name = kw if kw in pos + [x.arg for x in a.kwonlyargs] else None
            else:
                name = pos[i] if i < len(pos) else None
            if name is None:
                return
            s = self.param.setdefault((id(fn), name), set())
            n = len(s)
            s |= ts
            if len(s) != n:
                changed = True

        for sc, e in self.calls:
            if any(isinstance(a, ast.Starred) for a in e.args):
                continue
            r = sc.resolve(e.func)
            if not r:
                continue
            if r[0] == "external":
                n = WHOLE.get(r[1])
                if n is not None and len(e.args) > n:
                    ts = self.typeof(sc, e.args[n])
                    for j in range(n):
                        f = sc.resolve(e.args[j])
                        if f and f[0] in ("func", "lambda"):
                            give(f[2], 1 if n == 3 else 0, ts)
                elif r[1] == "jax.lax.cond" and len(e.args) > 3:
                    for j in (1, 2):
                        f = sc.resolve(e.args[j])
                        if f and f[0] in ("func", "lambda"):
                            for k, a in enumerate(e.args[3:]):
                                give(f[2], k, self.typeof(sc, a))
                elif r[1] == "jax.lax.scan" and len(e.args) > 1:
                    f = sc.resolve(e.args[0])
                    if f and f[0] in ("func", "lambda"):
                        give(f[2], 0, self.typeof(sc, e.args[1]))
                continue
            if r[0] in ("func", "lambda"):
                for k, a in enumerate(e.args):
                    give(r[2], k, self.typeof(sc, a))
                for k in e.keywords:
                    if k.arg:
                        give(r[2], None, self.typeof(sc, k.value), k.arg)
        return changed

    # ------------------------------------------------------------ typeof
    def typeof(self, sc, e):
        """set of known types: ('rec', modname, classname) or ('tup', (frozenset, ...))"""
        key = (id(e), id(sc.fn))
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return set()
        self.busy.add(key)
        try:
            r = self._typeof(sc, e)
        finally:
            self.busy.discard(key)
        self.memo[key] = r
        return r

    def ret(self, f):
        out = set()
        for s, v in self.rets.get(id(f), []):
            if v is not None:
                out |= self.typeof(s, v)
        return out

    def _typeof(self, sc, e):
        if isinstance(e, ast.Name):
            s = sc
            while s is not None and e.id not in s.defs:
                s = s.parent
            if s is None or s.fn is None:
                out = set()
                for s2, v, p in self.assign.get(sc.mod.name, {}).get(e.id, []):
                    if v is not None:
                        out |= self.at(self.typeof(s2, v), p)
                return out
            out = set()
            if e.id in N.args_of(s.fn):
                out |= self.param.get((id(s.fn), e.id), set())
                for a in s.fn.args.posonlyargs + s.fn.args.args + s.fn.args.kwonlyargs:
                    if a.arg == e.id and getattr(a, "annotation", None) is not None:
                        out |= self.annot(s, a.annotation)
            for s2, v, p in self.assign.get(id(s.fn), {}).get(e.id, []):
                if v is not None:
                    out |= self.at(self.typeof(s2, v), p)
            return out
        if isinstance(e, ast.Call):
            r = sc.resolve(e.func)
            if r and r[0] == "class":
                return self.cls(r)
            if r and r[0] in ("func", "lambda"):
                return self.ret(r[2])
            if r and r[0] == "external":
                n = WHOLE.get(r[1])
                if n is not None and len(e.args) > n:
                    return self.typeof(sc, e.args[n])
                if r[1] == "jax.lax.cond" and len(e.args) > 2:
                    out = set()
                    for j in (1, 2):
                        f = sc.resolve(e.args[j])
                        if f and f[0] in ("func", "lambda"):
                            out |= self.ret(f[2])
                    return out
                if r[1] == "jax.lax.scan" and len(e.args) > 1:
                    return {("tup", (frozenset(self.typeof(sc, e.args[1])), frozenset()))}
            if isinstance(e.func, ast.Attribute) and e.func.attr == "_replace":
                return self.typeof(sc, e.func.value)
            return set()
        if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return {("tup", tuple(frozenset(self.typeof(sc, x)) for x in e.elts))}
        if isinstance(e, ast.IfExp):
            return self.typeof(sc, e.body) | self.typeof(sc, e.orelse)
        if isinstance(e, ast.Attribute):
            out = set()
            for t in self.typeof(sc, e.value):
                if t[0] == "rec":
                    m, c = self.find(t)
                    for st in c.body:
                        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == e.attr:
                            out |= self.annot(N.Scope(m, None, None), st.annotation)
            return out
        return set()

    def at(self, ts, path):
        for i, n in path:
            out = set()
            for t in ts:
                if t[0] == "tup" and len(t[1]) == n:
                    out |= set(t[1][i])
            ts = out
        return ts

    def annot(self, sc, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return set()
        r = sc.resolve(a) if isinstance(a, (ast.Name, ast.Attribute)) else None
        return self.cls(r) if r and r[0] == "class" else set()

    def cls(self, r):
        if is_record(r[1], r[2]):
            return {("rec", r[1].name, r[2].name)}
        return set()

    def find(self, t):
        m = N.module(t[1])
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and n.name == t[2]:
                return m, n
        return m, None

    def fields(self, t):
        m, c = self.find(t)
        out = set(NT)
        for st in c.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                out.add(st.target.id)
            elif isinstance(st, N.FUNCS):
                out.add(st.name)
            elif isinstance(st, ast.Assign):
                out |= {x.id for x in st.targets if isinstance(x, ast.Name)}
        return out

    def replaceable(self, t):
        m, c = self.find(t)
        return {st.target.id for st in c.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)}


def is_record(mod, node):
    sc = N.Scope(mod, None, None)
    return any(sc.resolve(b) == ("external", "typing.NamedTuple") for b in node.bases)
