#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the whole library, on which
every check has to stay quiet.

refac.py list
refac.py run [name...]       rewrite a scratch copy, run all checks on it
"""
import ast
import builtins
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def strip(t):
    return t


class Reprint(ast.NodeTransformer):
    pass


class RetTemp(ast.NodeTransformer):
    """return e  ->  out = e; return out"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        while i < len(n.body) and isinstance(n.body[i], (ast.Nonlocal, ast.Global)):
            i += 1
        n.body.insert(i, ast.Assign([ast.Name("unused_", ast.Store())], ast.Constant(None)))
        return n


class Rename(ast.NodeTransformer):
    """rename every local variable that is not a parameter"""
    def __init__(self):
        self.maps = []

    def scope(self, n):
        """locals of n (not nested)"""
        out, nl = set(), set()
        params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        if n.args.vararg:
            params.add(n.args.vararg.arg)
        if n.args.kwarg:
            params.add(n.args.kwarg.arg)

        def walk(x, top):
            for c in ast.iter_child_nodes(x):
                if isinstance(c, FN):
                    out.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    walk(c.generators[0].iter, top)
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    nl.update(c.names)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        nl.add((a.asname or a.name).split(".")[0])
                walk(c, top)
        for st in n.body:
            if isinstance(st, FN):
                out.add(st.name)
                continue
            m = ast.Module([st], [])
            walk(m, m)
        return {k: k + "_v" for k in out - nl - params}, params

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        m, params = self.scope(n)
        if self.maps and n.name in self.lookup_all():
            n.name = self.get(n.name)
        cur = dict(m)
        for p in params:
            cur[p] = p
        self.maps.append(cur)
        n.body = [self.visit(x) for x in n.body]
        self.maps.pop()
        return n

    def lookup_all(self):
        out = {}
        for m in self.maps:
            out.update(m)
        return out

    def get(self, k):
        for m in reversed(self.maps):
            if k in m:
                return m[k]
        return k

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        params = {a.arg: a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        if n.args.vararg:
            params[n.args.vararg.arg] = n.args.vararg.arg
        if n.args.kwarg:
            params[n.args.kwarg.arg] = n.args.kwarg.arg
        self.maps.append(params)
        n.body = self.visit(n.body)
        self.maps.pop()
        return n

    def comp(self, n):
        n.generators[0].iter = self.visit(n.generators[0].iter)
        own = {}
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    own[x.id] = x.id
        self.maps.append(own)
        for i, g in enumerate(n.generators):
            if i:
                g.iter = self.visit(g.iter)
            g.ifs = [self.visit(x) for x in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        self.maps.pop()
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_ClassDef(self, n):
        if self.maps:
            return n
        n.body = [self.visit(x) for x in n.body]
        return n

    def visit_Name(self, n):
        if self.maps:
            n.id = self.get(n.id)
        return n

    def visit_Nonlocal(self, n):
        n.names = [self.get(k) for k in n.names]
        return n


class FlipIf(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
        n.body, n.orelse = n.orelse, n.body
        return n


class FlipCmp(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


class Aug(ast.NodeTransformer):
    """x += e -> x = x + e for plain names"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class LamDef(ast.NodeTransformer):
    """name = lambda ... inside functions -> def"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Lambda):
            return ast.FunctionDef(name=n.targets[0].id, args=n.value.args, body=[ast.Return(n.value.body)], decorator_list=[], type_params=[])
        return n


class Hoist(ast.NodeTransformer):
    """nested call arguments of statement-level calls become temporaries"""
    def __init__(self):
        self.k = 0

    def block(self, body):
        out = []
        for st in body:
            pre = []
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, (ast.Call, ast.BinOp)):
                self.expr(st.value, pre)
            out += pre
            out.append(st)
        return out

    def pure(self, e):
        return not any(isinstance(x, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Await, ast.Yield, ast.Starred, ast.GeneratorExp, ast.ListComp)) for x in ast.walk(e))

    def expr(self, e, pre):
        if not self.pure(e):
            return
        if isinstance(e, ast.BinOp):
            for f in ("left", "right"):
                v = getattr(e, f)
                if isinstance(v, (ast.Call, ast.BinOp)):
                    setattr(e, f, self.tmp(v, pre))
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call):
                return
            e.args = [self.tmp(a, pre) if isinstance(a, (ast.Call, ast.BinOp)) else a for a in e.args]
            for k in e.keywords:
                if isinstance(k.value, (ast.Call, ast.BinOp)):
                    k.value = self.tmp(k.value, pre)

    def tmp(self, v, pre):
        self.expr(v, pre)
        self.k += 1
        n = "tmp%d_" % self.k
        pre.append(ast.Assign([ast.Name(n, ast.Store())], v))
        return ast.Name(n, ast.Load())

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class ForWhile(ast.NodeTransformer):
    """for i in range(a[, b]) -> while"""
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "range" and len(c.args) in (1, 2) and isinstance(n.target, ast.Name)
                and not n.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n))):
            lo, hi = (ast.Constant(0), c.args[0]) if len(c.args) == 1 else c.args
            i = n.target.id
            return [ast.Assign([ast.Name(i + "_n", ast.Store())], lo), ast.Assign([ast.Name(i + "_hi", ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(i + "_n", ast.Load()), [ast.Lt()], [ast.Name(i + "_hi", ast.Load())]),
                              [ast.Assign([ast.Name(i, ast.Store())], ast.Name(i + "_n", ast.Load()))] + n.body +
                              [ast.Assign([ast.Name(i + "_n", ast.Store())], ast.BinOp(ast.Name(i + "_n", ast.Load()), ast.Add(), ast.Constant(1)))], [])]
        return n


class Delegate(ast.NodeTransformer):
    """top level def f(a, b=1): body  ->  def f_body_(a, b): body ; def f(a, b=1): return f_body_(a, b)"""
    def visit_Module(self, n):
        out = []
        for st in n.body:
            if isinstance(st, ast.FunctionDef) and not st.decorator_list and not st.args.vararg and not st.args.kwarg and not st.args.kwonlyargs and not st.args.posonlyargs \
                    and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(st)):
                doc = ast.get_docstring(st)
                a2 = ast.arguments(posonlyargs=[], args=[ast.arg(a.arg) for a in st.args.args], kwonlyargs=[], kw_defaults=[], defaults=[])
                inner = ast.FunctionDef(name=st.name + "_body_", args=a2, body=st.body, decorator_list=[], type_params=[])
                call = ast.Return(ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in st.args.args], []))
                body = ([ast.Expr(ast.Constant(doc))] if doc else []) + [call]
                out += [inner, ast.FunctionDef(name=st.name, args=st.args, body=body, decorator_list=[], returns=st.returns, type_params=[])]
            else:
                out.append(st)
        n.body = out
        return n


class ElseDrop(ast.NodeTransformer):
    """if c: return a  (else: return b)  <->  guard clause with else"""
    def block(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse and st.body and isinstance(st.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                st.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class Kw(ast.NodeTransformer):
    """calls of functions of the same module: trailing positional arguments by keyword"""
    def visit_Module(self, n):
        self.sig = {st.name: [a.arg for a in st.args.args] for st in n.body if isinstance(st, ast.FunctionDef) and not st.args.vararg and not st.args.posonlyargs}
        seen = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                seen[x.id] = 1
            if isinstance(x, FN) and x not in n.body:
                seen[x.name] = 1
            if isinstance(x, ast.arg):
                seen[x.arg] = 1
        self.sig = {k: v for k, v in self.sig.items() if k not in seen}
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig and not any(isinstance(a, ast.Starred) for a in n.args) and 1 < len(n.args) <= len(self.sig[n.func.id]):
            names = self.sig[n.func.id]
            n.keywords = [ast.keyword(names[i], a) for i, a in enumerate(n.args) if i >= 1] + n.keywords
            n.args = n.args[:1]
        return n


class Square(ast.NodeTransformer):
    """x ** 2 -> x * x for names"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), ast.Name(n.left.id, ast.Load()))
        return n


class LogicOps(ast.NodeTransformer):
    """jnp.logical_and(a, b) -> a & b, logical_or -> |, logical_not -> ~ where the operands are comparisons"""
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "jnp" and f.attr in ("logical_and", "logical_or") and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.BitAnd() if f.attr == "logical_and" else ast.BitOr(), n.args[1])
        return n


class MatFn(ast.NodeTransformer):
    """a @ b -> jnp.matmul(a, b) when jnp is imported (not for operators: only names Phi/A/X excluded)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        return n


class InlineTemps(ast.NodeTransformer):
    """t = e; return t -> return e"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) >= 2 and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-1].value, ast.Name) and isinstance(n.body[-2], ast.Assign) \
                and len(n.body[-2].targets) == 1 and isinstance(n.body[-2].targets[0], ast.Name) and n.body[-2].targets[0].id == n.body[-1].value.id:
            n.body[-2:] = [ast.Return(n.body[-2].value)]
        return n


class ModImport(ast.NodeTransformer):
    """from jax import jit, lax -> import jax as jax_; jit = jax_.jit (from-imports of jax become attribute uses)"""
    def visit_Module(self, n):
        names = {}
        for st in n.body:
            if isinstance(st, ast.ImportFrom) and st.module == "jax" and not st.level:
                for a in st.names:
                    names[a.asname or a.name] = a.name
        if not names:
            return n
        bound = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)} | {x.name for x in ast.walk(n) if isinstance(x, FN)}
        self.names = {k: v for k, v in names.items() if k not in bound}
        for st in n.body:
            if isinstance(st, ast.ImportFrom) and st.module == "jax" and not st.level:
                st.names = [a for a in st.names if (a.asname or a.name) not in self.names] or [ast.alias("jit", "jit_unused_")]
        self.generic_visit(n)
        i = 0
        while i < len(n.body) and (isinstance(n.body[i], ast.Expr) and isinstance(n.body[i].value, ast.Constant) or isinstance(n.body[i], ast.ImportFrom) and n.body[i].module == "__future__"):
            i += 1
        n.body.insert(i, ast.Import([ast.alias("jax", "jax_")]))
        return n

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in getattr(self, "names", ()):
            return ast.Attribute(ast.Name("jax_", ast.Load()), self.names[n.id], ast.Load())
        return n


class Decorate(ast.NodeTransformer):
    """@jit def f -> def f; f = jit(f), within functions and at module level"""
    def block(self, body):
        out = []
        for st in body:
            if isinstance(st, ast.FunctionDef) and len(st.decorator_list) == 1 and isinstance(st.decorator_list[0], ast.Name) and st.decorator_list[0].id == "jit":
                d = st.decorator_list[0]
                st.decorator_list = []
                out += [st, ast.Assign([ast.Name(st.name, ast.Store())], ast.Call(d, [ast.Name(st.name, ast.Load())], []))]
            else:
                out.append(st)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class Unpack(ast.NodeTransformer):
    """m, n = A.shape -> m = A.shape[0]; n = A.shape[1]"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.value.value, ast.Name):
            return [ast.Assign([t], ast.Subscript(ast.Attribute(ast.Name(n.value.value.id, ast.Load()), "shape", ast.Load()), ast.Constant(i), ast.Load())) for i, t in enumerate(n.targets[0].elts)]
        return n


class Commute(ast.NodeTransformer):
    """a * b -> b * a for scalars and arrays (names and calls only; not list repetition)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        ok = lambda e: not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))
        if isinstance(n.op, ast.Mult) and ok(n.left) and ok(n.right):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n


class AddCommute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        num = lambda e: any(isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.Div, ast.MatMult)) for x in [e]) or isinstance(e, ast.Constant) and isinstance(e.value, (int, float))
        ok = lambda e: not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))
        if isinstance(n.op, ast.Add) and (num(n.left) or num(n.right)) and ok(n.left) and ok(n.right):
            return ast.BinOp(n.right, ast.Add(), n.left)
        return n


class SubNeg(ast.NodeTransformer):
    """a - b -> -b + a  is too odd; a - b*c stays; unary minus folded: -(a) * b -> -(a*b) skipped"""


TR = {c.__name__: c for c in (Reprint, RetTemp, Noop, Rename, FlipIf, FlipCmp, Aug, LamDef, Hoist, ForWhile, Delegate, ElseDrop, Kw, Square, LogicOps, InlineTemps, ModImport, Decorate, Unpack, Commute, AddCommute)}


def build(name):
    d = "/tmp/rf_" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
    n = 0
    for base, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(base, f)
                src = open(p).read()
                t = ast.parse(src)
                before = ast.dump(t)
                t2 = TR[name]().visit(ast.parse(src))
                ast.fix_missing_locations(t2)
                n += ast.dump(t2) != before
                if ast.dump(t2) != before or name == "Reprint":
                    open(p, "w").write(ast.unparse(t2) + "\n")
    return d, n


def checks():
    return [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]] if False else sorted(json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl")))


def run(name, props=None, tests=False):
    d, n = build(name)
    out = []
    for c in props or checks():
        ev = d + "/evid"
        env = dict(os.environ, VP_REPO=d, VP_EVID=ev)
        r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), c], env=env, capture_output=True, text=True)
        s = [x for x in r.stdout.splitlines() if "obligations" in x or x.startswith("refuted")]
        out.append("%s %-10s %s rc=%d %s" % ("ok " if r.returncode == 0 else "BAD", name, c, r.returncode, " || ".join(x[:260] for x in s[:4]) if r.returncode else s[-1][:90] if s else r.stderr[-200:]))
    shutil.rmtree(d)
    return n, out


def main():
    if sys.argv[1] == "list":
        print(*TR)
    elif sys.argv[1] == "build":
        print(build(sys.argv[2]))
    else:
        names = [a for a in sys.argv[2:] if not a.startswith("P")] or list(TR)
        props = [a for a in sys.argv[2:] if a.startswith("P")] or None
        for nm in names:
            n, out = run(nm, props)
            print("##", nm, n, "files")
            for o in out:
                print(o)
            sys.stdout.flush()


if __name__ == "__main__":
    main()
