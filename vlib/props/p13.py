"""P13 names, members, record fields and signatures resolve on every path."""
import ast
import json
import os
import re
import shutil
import subprocess
import tempfile

from .. import loader
from .. import names as N
from .. import ops
from .. import par
from .. import rectypes
from .. import solve
from . import p01

EXPLANATION = (
    "Every module, function and branch of the package is name-resolved from its syntax tree: scopes (symtable) for undefined names, reaching "
    "definitions for locals no assignment can reach, import and module-member tables for members of the package and of cr.nimble, signatures of "
    "functions, records, aliases and loop/branch bodies for every call whose callee resolves. Members of third-party modules and attributes of "
    "package records are resolved by the type checker (pyright) over the same tree; only its definite reports are used. The abstract "
    "interpreter's member and arity failures over the operator and solver tables complete the check for values that flow through records.")
FLOOR = 1500
TRUSTED = ["pyright's module and class member tables for jax/numpy/scipy", "python symtable", "semantics table of primitives in vlib/prims.py"]


def mods():
    out = []
    for name in sorted(loader.repo_modules()):
        m = N.module(name)
        if m is not None:
            out.append(m)
    return out


def run(r):
    for name, path in sorted(loader.repo_modules().items()):
        r.guard("names", name, lambda: scopes(r, name, path))
    for m in mods():
        r.guard("members", m.name, lambda: imports(r, m))
        r.guard("calls", m.name, lambda: calls(r, m))
        r.guard("classes", m.name, lambda: classes(r, m))
    r.guard("types", "package", lambda: typed(r))
    r.guard("fields", "package", lambda: fields(r))
    interp(r)
    r.assumptions.append("a call whose callee the resolver cannot identify (values of unknown type) is not checked")


def walk_functions(tree):
    out = []

    def go(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, N.FUNCS):
                out.append((".".join(path + [c.name]), c))
                go(c, path + [c.name])
            elif isinstance(c, ast.ClassDef):
                go(c, path + [c.name])
            else:
                go(c, path)
    go(tree, [])
    return out


def scopes(r, name, path):
    src = open(path, encoding="utf-8").read()
    rel = loader.relpath(path)
    m = N.module(name)
    if m is None:
        r.unknown("names", name, (rel, 1), "module does not parse")
        return
    bad = {}
    for nm, fn, line in N.undefined(m, src):
        bad.setdefault(fn, []).append((nm, line))
    for fn, l in bad.items():
        for nm, line in l:
            r.refuted("names", "%s:%s" % (rel, nm), (rel, line), "in %s: no binding of %r is visible here: not a parameter, local, import, module definition or builtin" % (fn, nm))
    for q, fn in walk_functions(m.tree):
        if q not in bad:
            r.proved("names", "%s:%s" % (rel, q), (rel, fn.lineno), "all names bound")
        ub = N.unbound_locals(fn) or N.maybe_unbound(fn)
        if ub:
            r.refuted("locals", "%s:%s" % (rel, q), (rel, ub[0][1]), "local %r is read on a path where no assignment to it has happened" % ub[0][0])
        else:
            r.proved("locals", "%s:%s" % (rel, q), (rel, fn.lineno), "every read local has a reaching definition")


def imports(r, m):
    seen = set()

    def member(base, name, line, what):
        if (base, name) in seen:
            return
        seen.add((base, name))
        if not (base == "cr" or base.startswith("cr.")):
            return                                  # type checker
        mm = N.module(base)
        if mm is None:
            if N.namespace_only(base):
                ok = bool(loader.find_module(base + "." + name))
            else:
                r.refuted("members", "%s:%s" % (m.rel, base), (m.rel, line), "module %s does not exist" % base)
                return
        else:
            ok = mm.has(name)
        con = "%s:%s.%s" % (m.rel, base, name)
        if ok is None:
            r.unknown("members", con, (m.rel, line), "dynamic module")
        elif ok:
            r.proved("members", con, (m.rel, line), "defined")
        else:
            r.refuted("members", con, (m.rel, line), "%s has no member %s" % (base, name))

    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            base = m.absolute(n)
            for a in n.names:
                if a.name != "*":
                    member(base, a.name, n.lineno, "import")
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.startswith("cr.") and loader.find_module(a.name) is None:
                    r.refuted("members", "%s:%s" % (m.rel, a.name), (m.rel, n.lineno), "module %s does not exist" % a.name)

    def cb(sc, e):
        if isinstance(e, ast.Attribute):
            b = sc.resolve(e.value)
            if b and b[0] == "module" and b[1].startswith("cr."):
                member(b[1], e.attr, e.lineno, "attribute")
    N.visit(m, cb)


# ---------------------------------------------------------------- calls
def call_shape(e):
    star = any(isinstance(a, ast.Starred) for a in e.args)
    nargs = sum(1 for a in e.args if not isinstance(a, ast.Starred))
    kws = [k.arg for k in e.keywords if k.arg]
    dstar = any(k.arg is None for k in e.keywords)
    return nargs, kws, star, dstar


HOF = {"jax.lax.while_loop": ((0, 1), (1, 1)), "jax.lax.fori_loop": ((2, 2),), "jax.lax.scan": ((0, 2),)}


def text(e):
    try:
        return ast.unparse(e)[:70]
    except Exception:  # noqa
        return "?"


def calls(r, m):
    cnt = {}

    def where_fn(sc):
        s = sc
        while s is not None and (s.fn is None or isinstance(s.fn, ast.Lambda)):
            s = s.parent
        return s.fn.name if s is not None else "<module>"

    def cb(sc, e):
        if not isinstance(e, ast.Call):
            return
        res = sc.resolve(e.func)
        con = "%s:%s:%s" % (m.rel, where_fn(sc), text(e.func))
        cnt[con] = cnt.get(con, 0) + 1
        if cnt[con] > 1:
            con += "#%d" % cnt[con]
        nargs, kws, star, dstar = call_shape(e)
        sig = N.signature(res)
        if sig is None and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self":
            sig = method_sig(m, sc, e.func.attr)
        if sig is not None:
            err = sig.check(nargs, kws, star, dstar)
            if err:
                r.refuted("calls", con, (m.rel, e.lineno), "%s: %s" % (text(e), err))
            else:
                r.proved("calls", con, (m.rel, e.lineno), "argument list accepted")
        if res and res[0] == "external":
            hof(sc, e, res[1], con)

    def hof(sc, e, f, con):
        f = f.replace("jax.numpy", "jnp") if f.startswith("jax.numpy") else f
        want = HOF.get(f)
        if f == "jax.lax.cond":
            if e.keywords or any(isinstance(a, ast.Starred) for a in e.args) or len(e.args) < 3:
                return
            if len(e.args) == 5 and any(isinstance(a, ast.Lambda) for a in (e.args[2], e.args[4])) and not isinstance(e.args[3], ast.Lambda):
                return
            want = ((1, len(e.args) - 3), (2, len(e.args) - 3))
        elif f == "functools.partial":
            if not e.args or any(isinstance(a, ast.Starred) for a in e.args):
                return
            sig = N.signature(sc.resolve(e.args[0]))
            if sig is None:
                return
            n, kws, star, dstar = call_shape(e)
            err = sig.check(n - 1, kws, True, True)
            done(con + ":partial", e, err)
            return
        if not want:
            return
        for i, n in want:
            if i >= len(e.args):
                continue
            a = e.args[i]
            sig = N.signature(sc.resolve(a))
            if sig is not None:
                done("%s:arg%d" % (con, i), e, sig.check(n, [], False, False))

    def done(con, e, err):
        if err:
            r.refuted("calls", con, (m.rel, e.lineno), "%s: %s" % (text(e), err))
        else:
            r.proved("calls", con, (m.rel, e.lineno), "argument list accepted")
    N.visit(m, cb)


def owner(sc):
    s = sc
    while s is not None:
        if s.cls is not None:
            return s
        s = s.parent
    return None


def method_sig(m, sc, name):
    """signature of self.<name> when the class defines it once as a plain method"""
    s = owner(sc)
    if s is None or s.fn is None or not s.fn.args.args or s.fn.args.args[0].arg != "self":
        return None
    if len(sc.find("self")[1] or []) != 1:
        return None
    ds = [st for st in s.cls.body if isinstance(st, N.FUNCS) and st.name == name]
    if len(ds) != 1 or ds[0].decorator_list:
        return None
    for st in ast.walk(s.cls):
        if isinstance(st, ast.Attribute) and isinstance(st.ctx, ast.Store) and st.attr == name:
            return None
    return N.sig_of(ds[0], bound=True)


# -------------------------------------------------------------- classes
def classes(r, m):
    """self.<name> exists somewhere in the class, in a base, or is set by an assignment"""
    for node in m.tree.body:
        if not isinstance(node, ast.ClassDef):
            continue
        known = members(m, node, 0)
        if known is None:
            continue
        for fn in node.body:
            if not isinstance(fn, N.FUNCS) or not fn.args.args or fn.args.args[0].arg != "self":
                continue
            bad = [(n.attr, n.lineno) for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"
                   and isinstance(n.ctx, ast.Load) and n.attr not in known and not n.attr.startswith("__")]
            con = "%s:%s.%s" % (m.rel, node.name, fn.name)
            if bad:
                r.refuted("classes", con, (m.rel, bad[0][1]), "no method, field or assignment defines self.%s" % bad[0][0])
            else:
                r.proved("classes", con, (m.rel, fn.lineno), "all self members defined")


def members(m, node, depth):
    out = {"__class__", "__dict__"}
    for b in node.bases:
        res = N.Scope(m, None, None).resolve(b)
        if res == ("external", "typing.NamedTuple"):
            out |= {"_replace", "_asdict", "_fields", "_make", "count", "index"}
        elif res and res[0] == "class" and depth < 5:
            x = members(res[1], res[2], depth + 1)
            if x is None:
                return None
            out |= x
        elif isinstance(b, ast.Name) and b.id == "object":
            pass
        else:
            return None
    for st in node.body:
        if isinstance(st, N.FUNCS + (ast.ClassDef,)):
            if getattr(st, "name", "") in ("__getattr__", "__getattribute__"):
                return None
            out.add(st.name)
        else:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            out.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
            return None
        elif isinstance(n, ast.Attribute) and n.attr == "__dict__":
            return None
    return out


# ------------------------------------------------------------ type checker
def typed(r):
    exe = shutil.which("pyright")
    if not exe:
        r.unknown("types", "package", None, "pyright not available")
        return
    tmp = tempfile.mkdtemp(prefix="vp13_")
    try:
        os.symlink(loader.SRC, os.path.join(tmp, "src"))
        with open(os.path.join(tmp, "pyrightconfig.json"), "w") as f:
            json.dump({"include": ["src/cr/sparse"], "extraPaths": ["src"], "typeCheckingMode": "basic"}, f)
        try:
            p = subprocess.run([exe, "-p", tmp, "--pythonpath", "/opt/venv/bin/python", "--outputjson"],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, cwd=tmp)
            d = json.loads(p.stdout.decode())
        except Exception as e:  # noqa
            r.unknown("types", "package", None, "pyright gave no answer: %s" % e)
            return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    n = d.get("summary", {}).get("filesAnalyzed", 0)
    if n < 50:
        r.unknown("types", "package", None, "pyright analysed %d files" % n)
        return
    ours = repo_classes()
    bad = set()
    for g in d["generalDiagnostics"]:
        path = g["file"]
        i = path.find("/src/cr/sparse/")
        if i < 0:
            continue
        rel = path[i + 1:]
        line = g["range"]["start"]["line"] + 1
        msg = g["message"].replace("\u00a0", " ")
        v = definite(msg, ours)
        if v is None:
            continue
        if v[0] in ("member", "symbol") and guarded(rel, line, v[1]):
            continue
        if dead(rel, line):
            continue
        bad.add(rel)
        r.refuted("types", "%s:%s:%s" % (rel, enclosing(rel, line), v[1]), (rel, line), msg.splitlines()[0])
    for name, path in sorted(loader.repo_modules().items()):
        rel = loader.relpath(path)
        if rel not in bad:
            r.proved("types", rel, (rel, 1), "no unresolved third-party member, record attribute or tuple size")
    r.stats["pyright_files"] = n


def repo_classes():
    out = set()
    for m in mods():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                out.add(n.name)
    return out


def definite(msg, ours):
    x = re.match(r'"(\w+)" is not a known attribute of module "([\w.]+)"', msg)
    if x:
        return "member", x.group(1)
    x = re.match(r'"(\w+)" is unknown import symbol', msg)
    if x:
        return "symbol", x.group(1)
    x = re.match(r'Import "([\w.]+)" could not be resolved', msg)
    if x and (x.group(1).startswith("cr.sparse") or x.group(1).startswith(".")):
        return "import", x.group(1)
    x = re.match(r'Cannot access attribute "(\w+)" for class "(?:type\[)?(\w+)\]?(?:\*)?"', msg)
    if x and x.group(2) in ours and x.group(2) not in ("Operator",) and "Cannot assign" not in msg:
        return "attribute", "%s.%s" % (x.group(2), x.group(1))
    x = re.match(r'No parameter named "(\w+)"|Argument missing for parameter "(\w+)"|Expected (\d+) positional arguments?$', msg)
    if x:
        return "call", x.group(1) or x.group(2) or x.group(3)
    x = re.match(r'Expression with type "tuple\[.*" cannot be assigned to target tuple', msg)
    if x and "Type \"tuple" in msg and "mismatch" in msg:
        return "tuple", "size"
    return None


def node_path(rel, line):
    """statements containing the line, outermost first"""
    p = os.path.join(loader.REPO, rel)
    tree = loader.parse(p)
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.stmt) and n.lineno <= line <= (n.end_lineno or n.lineno):
            out.append(n)
    return sorted(out, key=lambda n: (n.lineno, -(n.end_lineno or 0)))


def enclosing(rel, line):
    f = [n.name for n in node_path(rel, line) if isinstance(n, N.FUNCS + (ast.ClassDef,))]
    return ".".join(f) or "<module>"


def guarded(rel, line, name):
    """inside a try that catches ImportError/AttributeError or a hasattr test"""
    for n in node_path(rel, line):
        if isinstance(n, ast.Try) and n.handlers:
            return True
        if isinstance(n, ast.If) and "hasattr" in ast.unparse(n.test):
            return True
    return False


def dead(rel, line):
    """after a return/raise of the same block"""
    tree = loader.parse(os.path.join(loader.REPO, rel))
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            over = False
            for st in b:
                if over and isinstance(st, ast.stmt) and st.lineno <= line <= (st.end_lineno or st.lineno):
                    return True
                if isinstance(st, (ast.Return, ast.Raise)):
                    over = True
    return False


# ---------------------------------------------------------------- records
def fields(r):
    ty = rectypes.Types(mods())
    for m in mods():
        cnt = {}

        def cb(sc, e):
            if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
                ts = ty.typeof(sc, e.value)
                want, attr = ty.fields, [e.attr]
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "_replace":
                ts = ty.typeof(sc, e.func.value)
                want, attr = ty.replaceable, [k.arg for k in e.keywords if k.arg]
            else:
                if isinstance(e, ast.Call) and sc.resolve(e.func) == ("external", "jax.debug.callback") and len(e.args) == 2:
                    track(sc, e)
                return
            recs = [t for t in ts if t[0] == "rec"]
            if not recs or len(recs) != len(ts):
                return
            for a in attr:
                con = "%s:%s:%s.%s" % (m.rel, fn_name(sc), text(e.value if isinstance(e, ast.Attribute) else e.func.value), a)
                missing = [t for t in recs if a not in want(t)]
                if len(missing) == len(recs):
                    r.refuted("fields", con, (m.rel, e.lineno), "record %s has no field %s" % (recs[0][2], a))
                elif con not in cnt:
                    cnt[con] = 1
                    r.proved("fields", con, (m.rel, e.lineno), "field of %s" % recs[0][2])

        def track(sc, e):
            for t in ty.typeof(sc, e.args[1]):
                if t[0] != "rec":
                    continue
                f = ty.fields(t)
                con = "%s:%s:callback %s" % (m.rel, fn_name(sc), t[2])
                lack = [g for g in TRACKED if not any(x in f for x in g)]
                if lack:
                    r.refuted("trackers", con, (m.rel, e.lineno), "the trackers of the package read %s of the reported state; %s has none of it" % ("/".join(lack[0]), t[2]))
                else:
                    r.proved("trackers", con, (m.rel, e.lineno), "state carries what the trackers read")
        N.visit(m, cb)


TRACKED = (("iterations",), ("x", "x_I"), ("r", "r_norm_sqr"))


def fn_name(sc):
    s = sc
    while s is not None and (s.fn is None or isinstance(s.fn, ast.Lambda)):
        s = s.parent
    return s.fn.name if s is not None else "<module>"


# ------------------------------------------------------------ interpreter
BAD = ("unbound", "badattr", "nofield", "arity", "missingfield", "badimport")


def interp(r):
    js = [("solver", i, c.construct) for i, c in enumerate(solve.table())]
    js += [("op", j, "lop.%s(%s) rank=%s axis=%s" % j) for j in p01.jobs()]
    par.fold(r, par.pmap(ijob, js, timeout=60), js, "paths", lambda j: str(j[2]))


def ijob(j):
    rows = []
    if j[0] == "solver":
        an = solve.Analysed(solve.table()[j[1]])
        ev, con, where = an.I.events, an.case.construct, an.where
    else:
        name, label, rank, axis = j[1]
        cs = [c for c in ops.cases() if c.name == name and c.label == label][0]
        I, fn, op = p01.build(cs, rank, axis)
        m, n = p01.opshape(I, op)
        I.call(op.fields["times"], [ops.array("x", *ops.stack_shape(n, rank, axis))], {})
        I.call(op.fields["trans"], [ops.array("y", *ops.stack_shape(m, rank, axis))], {})
        ev, con, where = I.events, j[2], p01.where_of(fn)
    seen = set()
    for e in ev:
        if e.kind in BAD and e.where[0].startswith("src/"):
            k = (e.kind, str(e.data), e.where)
            if k not in seen:
                seen.add(k)
                rows.append(("refuted", "paths", con, (e.where[0], e.where[-1]), "%s in %s: %s" % (e.kind, e.where[1], e.data)))
    if not rows:
        rows.append(("proved", "paths", con, (where[0], where[-1]), "no missing member or argument on any interpreted path"))
    return rows
