"""Random single-construct mutants of the library: which check reports each one.

usage: mutate.py SEED COUNT [path regex] [out file]
Works on scratch copies of /repo/src under /tmp; survivors are for reading by hand
(many are equivalent, or break nothing a property speaks about).
"""
import ast
import os
import random
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("MUT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = re.compile(r"(plot|/wt/.*old|_test|tools/|/vis|geo/|data/)")
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
CMP2 = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}
CALL = {"max": "min", "min": "max", "maximum": "minimum", "minimum": "maximum", "argmax": "argmin", "argmin": "argmax",
        "norm_l1": "norm_l2", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "cos": "sin", "sin": "cos",
        "hstack": "vstack", "logical_and": "logical_or", "logical_or": "logical_and", "times": "trans", "trans": "times"}
DROP = {"conj", "abs", "sqrt", "real", "flip", "sort", "transpose", "conjugate", "asarray", "ravel", "fftshift"}


def mutants(path, rel):
    src = open(path).read()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return []
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((rel, n.lineno, kind, raw[a:b].decode(), new, a, b))
    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
        if isinstance(fn, ast.FunctionDef) and fn.name.startswith("__"):
            continue
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                       | {a.arg for a in fn.args.args})
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
                continue
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                add(n, "%s %s %s" % ("(" + seg(n.left) + ")" if not isinstance(n.left, (ast.Name, ast.Constant, ast.Attribute, ast.Call, ast.Subscript)) else seg(n.left), SWAP[type(n.op)],
                                     "(" + seg(n.right) + ")" if not isinstance(n.right, (ast.Name, ast.Constant, ast.Attribute, ast.Call, ast.Subscript)) else seg(n.right)), "op")
                if isinstance(n.op, (ast.Add, ast.Mult)):
                    add(n, "(" + seg(n.left) + ")", "drop right")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                for t in (CMP, CMP2):
                    if type(n.ops[0]) in t:
                        add(n, "%s %s %s" % (seg(n.left), t[type(n.ops[0])], seg(n.comparators[0])), "cmp")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(n, repr(n.value + 1 if type(n.value) is int else n.value * 2), "const")
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, repr(not n.value), "flag")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                if not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
                    add(n, "(" + seg(n.operand) + ")", "drop unary")
            elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
                add(n, seg(n.values[0]), "drop and/or")
            elif isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                if nm in CALL and isinstance(f, ast.Attribute):
                    add(n, seg(f.value) + "." + CALL[nm] + seg(n)[len(seg(f)):], "call")
                if nm in DROP and len(n.args) == 1 and not n.keywords:
                    add(n, "(" + seg(n.args[0]) + ")", "drop call")
                if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]) and nm not in ("maximum", "minimum", "isinstance"):
                    a, b = n.args[:2]
                    a0, b1 = span(a)[0], span(b)[1]
                    new = seg(b) + raw[span(a)[1]:span(b)[0]].decode() + seg(a)
                    out.append((rel, n.lineno, "swap args", raw[a0:b1].decode(), new, a0, b1))
                for k in n.keywords:
                    if k.arg in ("axis", "keepdims", "mode", "side", "ddof", "offset", "shift") and len(n.args) + len(n.keywords) > 1:
                        a0, b1 = span(k)
                        # drop with the preceding comma
                        j = raw.rfind(b",", 0, a0)
                        if j > 0 and raw[j + 1:a0].strip() == b"":
                            out.append((rel, n.lineno, "drop keyword", raw[j:b1].decode(), "", j, b1))
            elif isinstance(n, ast.Attribute) and n.attr == "T":
                add(n, seg(n.value), "drop T")
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
                o = [x for x in names if x != n.id and (x[0] == n.id[0] or abs(len(x) - len(n.id)) <= 1)]
                if o:
                    add(n, random.choice(o), "name")
    return out


def checks(rel):
    c = ["P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15"]
    if re.search(r"pursuit|cvx|opt/|sls|fom|block|cluster|ista|focuss|cssp|spgl1", rel):
        c.append("P16")
    if "lop/" in rel:
        c.append("P01")
    if os.path.exists(VERIF + "/vlib/props/p17.py"):
        c.append("P17")
    return c


def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    pat = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
    outf = open(sys.argv[4], "a") if len(sys.argv) > 4 else sys.stdout
    random.seed(seed)
    base = REPO + "/src/cr/sparse/_src"
    files = []
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, base)
            if f.endswith(".py") and not SKIP.search("/" + rel) and pat.search(rel):
                files.append((p, rel))
    pool = {}
    for p, rel in sorted(files):
        ms = mutants(p, rel)
        if ms:
            pool[rel] = (p, ms)
    # a file is drawn with weight ~ sqrt(number of constructs)
    rels = sorted(pool)
    for i in range(count):
        rel = random.choices(rels, [len(pool[x][1]) ** 0.5 for x in rels])[0]
        p, ms = pool[rel]
        m = random.choice(ms)
        tmp = "/tmp/mm/t%d_%d" % (seed, os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(REPO + "/src", tmp + "/src")
        q = tmp + "/src/cr/sparse/_src/" + rel
        raw = open(q, "rb").read()
        raw = raw[:m[5]] + m[4].encode() + raw[m[6]:]
        try:
            ast.parse(raw)
        except SyntaxError:
            continue
        open(q, "wb").write(raw)
        t0 = time.time()
        hit = []
        for c in checks(rel):
            env = dict(os.environ, VP_REPO=tmp, VP_EVID=tmp + "/ev")
            os.makedirs(tmp + "/ev", exist_ok=True)
            try:
                r = subprocess.run([sys.executable, VERIF + "/check.py", c, "quick"], env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                hit.append(c + "!timeout")
                continue
            if r.returncode == 1:
                hit.append(c)
            elif r.returncode:
                hit.append(c + "!%d" % r.returncode)
        line = " ".join(raw.decode().split("\n")[m[1] - 1].split())[:110]
        print("%-9s %-22s %s:%d [%s] %s => %s  | %s (%.0fs)" % ("CAUGHT" if any("!" not in h for h in hit) else "MISSED", ",".join(hit), rel, m[1], m[2],
              " ".join(m[3].split())[:50], " ".join(m[4].split())[:50], line, time.time() - t0), file=outf, flush=True)
        shutil.rmtree(tmp, ignore_errors=True)


main()
