"""Source loading: finds and parses the modules of the package under analysis
and of its pure-python dependencies (for inlining and signature resolution)."""
import ast
import glob
import os

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")


def dep_roots():
    out = []
    for pat in ("/opt/venv/lib/python3*/site-packages", "/usr/lib/python3/dist-packages"):
        out.extend(sorted(glob.glob(pat)))
    return out


_DEPS = dep_roots()


def find_module(name):
    """-> (path, is_pkg) or None.  cr.sparse comes from the repo; cr.nimble and
    cr.wavelets from the installed dependencies."""
    rel = name.replace(".", "/")
    roots = [SRC] if (name == "cr.sparse" or name.startswith("cr.sparse.")) else _DEPS
    if not (name == "cr" or name.startswith("cr.")):
        return None
    for r in roots:
        p = os.path.join(r, rel)
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p):
            return None, True
    return None


_trees = {}


def parse(path):
    if path not in _trees:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        _trees[path] = ast.parse(src, path)
    return _trees[path]


def repo_modules():
    """all python modules of the package under analysis: {modname: path}"""
    out = {}
    base = os.path.join(SRC, "cr", "sparse")
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, SRC)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                out[rel] = p
    return out


def relpath(p):
    return os.path.relpath(p, REPO) if p and p.startswith(REPO) else p
