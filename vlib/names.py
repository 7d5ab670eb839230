"""Static name, member and signature resolution over the package."""
import ast
import builtins
import os
import symtable

from . import loader

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__", "__module__", "__qualname__"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


class Mod:
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        self.tree = loader.parse(path)
        self.rel = loader.relpath(path)
        self.ns = {}
        self.stars = []
        self.dynamic = False
        self.bind(self.tree.body)

    def add(self, name, ent):
        self.ns.setdefault(name, []).append(ent)

    def absolute(self, node):
        base = node.module or ""
        if node.level:
            parts = self.name.split(".")
            if not self.pkg:
                parts = parts[:-1]
            if node.level > 1:
                parts = parts[:len(parts) - (node.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        return base

    def bind(self, body):
        for st in body:
            if isinstance(st, FUNCS):
                if st.name == "__getattr__":
                    self.dynamic = True
                self.add(st.name, ("func", st))
            elif isinstance(st, ast.ClassDef):
                self.add(st.name, ("class", st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.add(a.asname, ("mod", a.name))
                    else:
                        self.add(a.name.split(".")[0], ("mod", a.name.split(".")[0]))
            elif isinstance(st, ast.ImportFrom):
                base = self.absolute(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.add(a.asname or a.name, ("from", base, a.name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in ts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            single = isinstance(t, ast.Name) and not isinstance(st, ast.AugAssign)
                            self.add(n.id, ("val", st.value if single else None))
            else:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.add(n.id, ("val", None))
                for f in ("body", "orelse", "finalbody"):
                    self.bind(getattr(st, f, []) or [])
                for h in getattr(st, "handlers", []) or []:
                    if h.name:
                        self.add(h.name, ("val", None))
                    self.bind(h.body)

    def has(self, name, seen=()):
        """True / False / None (cannot tell)"""
        if name in self.ns or name in ("__name__", "__file__", "__doc__", "__path__", "__version__"):
            return True
        if self.dynamic:
            return None
        for s in self.stars:
            if s in seen:
                continue
            m = module(s)
            if m is None:
                return None
            if not name.startswith("_"):
                h = m.has(name, tuple(seen) + (self.name,))
                if h is not False:
                    return h
        if loader.find_module(self.name + "." + name):
            return True
        return False

    def get(self, name):
        """single definition of a name: entry or None"""
        e = self.ns.get(name)
        if e is None:
            for s in reversed(self.stars):
                m = module(s)
                if m is not None and m.has(name):
                    return m.get(name)
            return None
        return e[0] if len(e) == 1 else None


_mods = {}


def module(name):
    if name not in _mods:
        _mods[name] = None
        f = loader.find_module(name)
        if f and f[0]:
            try:
                _mods[name] = Mod(name, f[0], f[1])
            except SyntaxError:
                _mods[name] = None
    return _mods[name]


def namespace_only(name):
    f = loader.find_module(name)
    return bool(f) and f[0] is None


def resolve_entry(mod, ent, depth=0):
    """follow imports: ('func'|'class', Mod, node) | ('module', name) | ('val', Mod, expr) | None"""
    if ent is None or depth > 12:
        return None
    k = ent[0]
    if k in ("func", "class", "val"):
        return (k, mod, ent[1])
    if k == "mod":
        return ("module", ent[1])
    if k == "from":
        m = module(ent[1])
        if m is None:
            f = loader.find_module(ent[1] + "." + ent[2])
            if f:
                return ("module", ent[1] + "." + ent[2])
            return ("external", ent[1] + "." + ent[2])
        if ent[2] in m.ns or any(True for _ in m.stars):
            r = resolve_entry(m, m.get(ent[2]), depth + 1)
            if r is not None:
                return r
        if loader.find_module(ent[1] + "." + ent[2]):
            return ("module", ent[1] + "." + ent[2])
    return None


def dotted(e):
    if isinstance(e, ast.Name):
        return [e.id]
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + [e.attr] if d else None
    return None


# ------------------------------------------------------------------ scopes
class Scope:
    """function scopes around a node, for resolving local names"""

    def __init__(self, mod, fn, parent, cls=None):
        self.mod, self.fn, self.parent, self.cls = mod, fn, parent, cls
        self.defs = {}
        if fn is not None:
            for a in args_of(fn):
                self.defs.setdefault(a, []).append(("param", None))
            body = fn.body if isinstance(fn.body, list) else []
            self.collect(body)

    def collect(self, body):
        for st in body:
            if isinstance(st, FUNCS):
                self.defs.setdefault(st.name, []).append(("func", st))
                continue
            if isinstance(st, ast.ClassDef):
                self.defs.setdefault(st.name, []).append(("class", st))
                continue
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.defs.setdefault(a.asname or a.name.split(".")[0], []).append(("mod", a.name if a.asname else a.name.split(".")[0]))
                continue
            if isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs.setdefault(a.asname or a.name, []).append(("from", self.mod.absolute(st), a.name))
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.defs.setdefault(st.targets[0].id, []).append(("val", st.value))
            else:
                for n in own_nodes(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        self.defs.setdefault(n.id, []).append(("val", None))
            for n in own_nodes(st):
                if isinstance(n, ast.NamedExpr):
                    self.defs.setdefault(n.target.id, []).append(("val", None))
            for f in ("body", "orelse", "finalbody"):
                self.collect([x for x in (getattr(st, f, []) or []) if isinstance(x, ast.stmt)])
            for h in getattr(st, "handlers", []) or []:
                self.collect(h.body)

    def find(self, name):
        """(scope, entries) of the binding scope"""
        s = self
        while s is not None:
            if name in s.defs:
                return s, s.defs[name]
            s = s.parent
        e = self.mod.ns.get(name)
        if e is not None:
            return None, e
        g = self.mod.get(name)
        return (None, [g]) if g is not None else (None, None)

    def resolve(self, e, depth=0):
        """definition denoted by an expression, or None"""
        if depth > 10:
            return None
        if isinstance(e, ast.Lambda):
            return ("lambda", self.mod, e)
        if isinstance(e, ast.Name):
            s, ents = self.find(e.id)
            if not ents or len(ents) != 1:
                return None
            ent = ents[0]
            if ent[0] == "param":
                return None
            r = resolve_entry(self.mod, ent)
            if s is None and ents is not self.mod.ns.get(e.id):
                # through a star import
                for st in reversed(self.mod.stars):
                    m = module(st)
                    if m is not None and m.has(e.id):
                        r = resolve_entry(m, m.get(e.id))
                        break
            return self.follow(r, s or Scope(self.mod, None, None), depth)
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, depth + 1)
            if b and b[0] == "module":
                m = module(b[1])
                if m is None:
                    if loader.find_module(b[1] + "." + e.attr):
                        return ("module", b[1] + "." + e.attr)
                    return ("external", b[1] + "." + e.attr)
                r = resolve_entry(m, m.get(e.attr))
                if r is None and loader.find_module(b[1] + "." + e.attr) and e.attr not in m.ns:
                    return ("module", b[1] + "." + e.attr)
                if r is not None and r[0] in ("func", "class", "val"):
                    return Scope(r[1], None, None).follow(r, None, depth)
                return r
            if b and b[0] == "external":
                return ("external", b[1] + "." + e.attr)
            return None
        return None

    def follow(self, r, scope, depth):
        """through name = jit(f, ...) and name = other"""
        if r is None or r[0] != "val" or r[2] is None:
            return r
        m, v = r[1], r[2]
        sc = scope if scope is not None and scope.mod is m else Scope(m, None, None)
        if isinstance(v, (ast.Name, ast.Attribute, ast.Lambda)):
            return sc.resolve(v, depth + 1)
        if isinstance(v, ast.Call) and v.args:
            f = sc.resolve(v.func, depth + 1)
            if is_jit(f):
                return sc.resolve(v.args[0], depth + 1)
        return None


def is_jit(f):
    return bool(f) and f[0] == "external" and f[1] in ("jax.jit", "jax.api.jit")


def own_nodes(st):
    """nodes of a statement without nested statement blocks and nested functions"""
    out = []
    todo = []
    for f, v in ast.iter_fields(st):
        if f in ("body", "orelse", "finalbody", "handlers") and isinstance(v, list):
            continue
        todo.extend(v if isinstance(v, list) else [v])
    while todo:
        n = todo.pop()
        if not isinstance(n, ast.AST):
            continue
        out.append(n)
        if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension
            for g in n.generators:
                todo.extend([g.iter] + g.ifs)
            todo.extend([n.elt] if hasattr(n, "elt") else [n.key, n.value])
            continue
        todo.extend(ast.iter_child_nodes(n))
    return out


def args_of(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


# ------------------------------------------------------------ signatures
class Sig:
    def __init__(self, pos, required, kwonly, kwreq, star, dstar):
        self.pos, self.required, self.kwonly, self.kwreq, self.star, self.dstar = pos, required, kwonly, kwreq, star, dstar

    def check(self, nargs, kws, star, dstar):
        """error text or None"""
        if nargs > len(self.pos) and not self.star:
            return "%d positional arguments given, at most %d accepted" % (nargs, len(self.pos))
        for k in kws:
            if k in self.pos:
                if self.pos.index(k) < nargs:
                    return "argument %r given twice" % k
            elif k not in self.kwonly and not self.dstar:
                return "no parameter named %r" % k
        if not star and not dstar:
            for i, p in enumerate(self.pos):
                if p in self.required and i >= nargs and p not in kws:
                    return "missing argument %r" % p
            for p in self.kwreq:
                if p not in kws:
                    return "missing keyword argument %r" % p
        return None


def sig_of(fn, bound=False):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    if bound:
        pos, req = pos[1:], [p for p in req if p in pos[1:]]
    kwo = [x.arg for x in a.kwonlyargs]
    kwr = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return Sig(pos, set(req), kwo, kwr, a.vararg is not None, a.kwarg is not None)


def keeps_signature(scope, fn):
    """decorators that do not change the signature"""
    for d in fn.decorator_list:
        r = scope.resolve(d)
        if is_jit(r):
            continue
        if isinstance(d, ast.Call):
            f = scope.resolve(d.func)
            if is_jit(f):
                continue
            if f == ("external", "functools.partial") and d.args and is_jit(scope.resolve(d.args[0])):
                continue
        return False
    return True


def class_sig(mod, node):
    """signature of a record constructor / class, or None"""
    sc = Scope(mod, None, None)
    bases = [sc.resolve(b) for b in node.bases]
    if any(b == ("external", "typing.NamedTuple") for b in bases):
        pos, req = [], set()
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                pos.append(st.target.id)
                if st.value is None:
                    req.add(st.target.id)
        return Sig(pos, req, [], [], False, False)
    if node.decorator_list or node.bases:
        return None
    for st in node.body:
        if isinstance(st, FUNCS) and st.name == "__new__":
            return None
        if isinstance(st, FUNCS) and st.name == "__init__":
            return sig_of(st, bound=True)
    return Sig([], set(), [], [], False, False)


def signature(res):
    if res is None:
        return None
    if res[0] == "lambda":
        return sig_of(res[2])
    if res[0] == "func":
        fn = res[2]
        if not keeps_signature(Scope(res[1], None, None), fn):
            return None
        return sig_of(fn)
    if res[0] == "class":
        return class_sig(res[1], res[2])
    return None


# ------------------------------------------------------------ traversal
def live_blocks(body):
    """statements of a block up to the first return/raise"""
    out = []
    for st in body:
        out.append(st)
        if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            break
    return out


def visit(mod, cb):
    """cb(scope, node) for every live expression node with its scope"""
    def stmts(body, sc, cls=None):
        for st in live_blocks(body):
            if isinstance(st, FUNCS):
                for d in st.decorator_list + st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                    exprs(d, sc)
                stmts(st.body, Scope(mod, st, sc if sc is None or sc.fn is not None or sc.parent is not None else sc, cls))
                continue
            if isinstance(st, ast.ClassDef):
                for b in st.bases + st.decorator_list:
                    exprs(b, sc)
                stmts(st.body, sc, st)
                continue
            for f, v in ast.iter_fields(st):
                if f in ("body", "orelse", "finalbody") and isinstance(v, list):
                    stmts(v, sc, cls)
                elif f == "handlers":
                    for h in v:
                        if h.type is not None:
                            exprs(h.type, sc)
                        stmts(h.body, sc, cls)
                elif isinstance(v, ast.AST):
                    exprs(v, sc)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, ast.withitem):
                            exprs(x.context_expr, sc)
                        elif isinstance(x, ast.AST):
                            exprs(x, sc)

    def exprs(e, sc):
        cb(sc, e)
        if isinstance(e, ast.Lambda):
            exprs(e.body, Scope(mod, e, sc))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                exprs(c, sc)
            elif isinstance(c, ast.keyword):
                exprs(c.value, sc)
            elif isinstance(c, ast.comprehension):
                for x in [c.iter] + c.ifs:
                    exprs(x, sc)
            elif isinstance(c, (ast.Slice,)):
                exprs(c, sc)
    stmts(mod.tree.body, Scope(mod, None, None))


# ------------------------------------------------------- undefined names
def undefined(mod, src):
    """(name, function, line) of loads that no binding can satisfy"""
    top = symtable.symtable(src, mod.path, "exec")
    out = []
    lines = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)

    def known(name):
        return name in BUILTINS or mod.has(name) is not False and (name in mod.ns or star_has(mod, name))

    def go(t, path):
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            nm = s.get_name()
            if t.get_type() == "module":
                if s.is_assigned() or s.is_imported() or s.is_namespace():
                    continue
                if not known(nm):
                    out.append((nm, ".".join(path) or "<module>", (lines.get(nm) or [t.get_lineno()])[0]))
            elif s.is_global():
                if not known(nm):
                    lo = t.get_lineno()
                    ls = [l for l in lines.get(nm, []) if l >= lo] or [lo]
                    out.append((nm, ".".join(path), ls[0]))
        for c in t.get_children():
            go(c, path + [c.get_name()])
    go(top, [])
    return out


def star_has(mod, name):
    for s in mod.stars:
        m = module(s)
        if m is None or m.has(name) is not False and not name.startswith("_"):
            return True
    return False


def unbound_locals(fn):
    """(name, line) of loads of a local that no assignment can reach"""
    local = set()
    glob = set()
    for st in ast.walk(fn):
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            glob |= set(st.names)

    def stores(body):
        for st in body:
            if isinstance(st, FUNCS + (ast.ClassDef,)):
                local.add(st.name)
                continue
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    local.add((a.asname or a.name).split(".")[0])
                continue
            for n in own_nodes(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    local.add(n.id)
            for f in ("body", "orelse", "finalbody"):
                stores([x for x in (getattr(st, f, []) or []) if isinstance(x, ast.stmt)])
            for h in getattr(st, "handlers", []) or []:
                if h.name:
                    local.add(h.name)
                stores(h.body)
    stores(fn.body)
    local -= glob
    params = set(args_of(fn))
    bad = []

    def binds(st):
        s = set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
            elif isinstance(n, FUNCS + (ast.ClassDef,)):
                s.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name)
        return s

    def uses(nodes, cur):
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in params and n.id not in cur:
                bad.append((n.id, n.lineno))

    def block(body, cur):
        for st in body:
            if isinstance(st, FUNCS + (ast.ClassDef,)):
                cur = cur | {st.name}
                continue
            if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                inner = cur | binds(st)
                if not isinstance(st, ast.While):
                    uses([n for n in ast.walk(st.iter) if not in_comp(st.iter, n)], cur)
                else:
                    uses([n for n in ast.walk(st.test) if not in_comp(st.test, n)], cur | binds(st))
                block(st.body, inner)
                block(st.orelse, inner)
                cur = inner
                continue
            comp = [n for n in own_nodes(st) if not isinstance(n, FUNCS + (ast.Lambda,))]
            named = {n.target.id for n in comp if isinstance(n, ast.NamedExpr)}
            loads = [n for n in comp if isinstance(n, ast.Name) and not shadowed(st, n)]
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id not in cur and st.target.id in local and st.target.id not in params:
                bad.append((st.target.id, st.lineno))
            uses(loads, cur | named)
            if isinstance(st, ast.If):
                a = block(st.body, cur)
                b = block(st.orelse, cur)
                cur = a | b
                continue
            if isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
                inner = cur | binds(st)
                block(st.body, cur)
                for h in st.handlers:
                    block(h.body, inner)
                block(st.orelse, inner)
                block(st.finalbody, inner)
                cur = inner
                continue
            if isinstance(st, (ast.With, ast.AsyncWith)):
                cur = cur | {n.id for i in st.items for n in ast.walk(i) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                cur = block(st.body, cur)
                continue
            if isinstance(st, (ast.Return, ast.Raise)):
                return cur | local         # nothing after it is reached
            cur = cur | binds(st)
        return cur

    comp_names = {}

    def shadowed(st, n):
        key = id(st)
        if key not in comp_names:
            s = set()
            for x in ast.walk(st):
                if isinstance(x, ast.comprehension):
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            s.add(y.id)
                elif isinstance(x, ast.Lambda):
                    s |= set(args_of(x))
            comp_names[key] = s
        return n.id in comp_names[key]

    def in_comp(root, n):
        return shadowed(root, n) if isinstance(n, ast.Name) else False
    block(fn.body, set(params))
    return bad


def maybe_unbound(fn):
    """(name, line) of loads reached by a branch on which a plain if/else left the local unassigned"""
    params = set(args_of(fn))
    local = set()
    glob = set()
    for st in ast.walk(fn):
        if isinstance(st, (ast.Global, ast.Nonlocal)):
            glob |= set(st.names)

    def stored(sts):
        s = set()
        for st in sts:
            if isinstance(st, FUNCS + (ast.ClassDef,)):
                s.add(st.name)
                continue
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split(".")[0] for a in st.names}
                continue
            for n in own_nodes(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.add(n.id)
            for f in ("body", "orelse", "finalbody"):
                s |= stored([x for x in (getattr(st, f, []) or []) if isinstance(x, ast.stmt)])
            for h in getattr(st, "handlers", []) or []:
                if h.name:
                    s.add(h.name)
                s |= stored(h.body)
        return s
    local = stored(fn.body) - glob - params
    bad = []
    tests = {}                     # name -> variables of the tests its assignments depend on

    def names_in(e):
        return {ast.dump(n) for n in ast.walk(e) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load)}

    def comp_names(e):
        return {y.id for x in ast.walk(e) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}

    def uses(nodes, cur, guards):
        for n in nodes:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and n.id not in cur and n.id in tests:
                if not (tests[n.id] & guards):
                    bad.append((n.id, n.lineno))

    ALL = None

    def block(body, cur, guards):
        for st in body:
            if cur is ALL:
                return ALL
            if isinstance(st, FUNCS + (ast.ClassDef,)):
                cur = cur | {st.name}
                continue
            own = own_nodes(st)
            skip = set()
            for n in own:
                skip |= comp_names(n) if isinstance(n, ast.expr) else set()
            inexp = set()
            for n in own:
                if isinstance(n, (ast.IfExp, ast.BoolOp)):
                    inexp |= names_in(n)
            uses([n for n in own if not (isinstance(n, ast.Name) and n.id in skip)], cur, guards | inexp)
            if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return ALL
            if isinstance(st, ast.If):
                g = names_in(st.test)
                a = block(st.body, cur, guards | g)
                b = block(st.orelse, cur, guards | g)
                for nm in (stored(st.body) | stored(st.orelse)):
                    tests.setdefault(nm, set()).update(g)
                chain = len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If) and not st.orelse[0].orelse
                if a is ALL and b is ALL:
                    return ALL
                if a is ALL:
                    cur = b
                elif b is ALL:
                    cur = a
                else:
                    cur = (a | b) if chain else (a & b)
                continue
            if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
                s = stored([st])
                block(st.body, cur | ({n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)} if not isinstance(st, ast.While) else s), guards)
                cur = cur | s
                continue
            if isinstance(st, ast.Try):
                block(st.body, cur, guards)
                cur = cur | stored([st])
                continue
            if isinstance(st, (ast.With, ast.AsyncWith)):
                cur = cur | {n.id for i in st.items for n in ast.walk(i) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                cur = block(st.body, cur, guards)
                continue
            cur = cur | stored([st])
            for n in own:
                if isinstance(n, ast.NamedExpr):
                    cur = cur | {n.target.id}
        return cur
    block(fn.body, params | set(), set())
    return bad
