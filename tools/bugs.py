#!/usr/bin/env python3
"""Development tool: define, confirm and score planted changes.

bugs.py make  <defs.py>...      write seeded/<id>/ from a definition file
bugs.py confirm <id>...         scratch copy: demo passes unchanged, fails changed, tests still pass
bugs.py score [<id>...]         run the property's check on each changed copy
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")

DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy(tag):
    d = "/tmp/wt_%s" % tag
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
    subprocess.check_call(["git", "init", "-q"], cwd=d)
    return d


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        out = os.path.join(SEED, b["id"])
        d = "/tmp/mk_%s" % b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diffs = ""
        for rel, old, new in b["edits"]:
            f = os.path.join("src/cr/sparse/_src", rel) if not rel.startswith("src/") else rel
            src = open(os.path.join("/repo", f)).read()
            dst = os.path.join(d, "b", f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            os.makedirs(os.path.dirname(os.path.join(d, "a", f)), exist_ok=True)
            cur = open(dst).read() if os.path.exists(dst) else src
            k = b.get("nth", {}).get(old)
            n = cur.count(old)
            if n != 1 and k is None:
                print("ERR %s: %d occurrences of %r in %s" % (b["id"], n, old, f))
                continue
            if k is None:
                cur = cur.replace(old, new)
            else:
                parts = cur.split(old)
                cur = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(os.path.join(d, "a", f), "w").write(src)
            open(dst, "w").write(cur)
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=d, capture_output=True, text=True)
        diffs = r.stdout
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diffs)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(d)
        print("made", b["id"])


def demo(d, sid):
    env = dict(ENV)
    r = subprocess.run(["bash", os.path.join(SEED, sid, "demo.sh")], cwd=d, env=env, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def confirm(sid, tests=True):
    rc0, o0 = demo("/repo", sid)
    d = copy(sid)
    try:
        subprocess.check_call(["git", "apply", os.path.join(SEED, sid, "patch.diff")], cwd=d)
        rc1, o1 = demo(d, sid)
        res = "unchanged rc=%d changed rc=%d" % (rc0, rc1)
        ok = rc0 == 0 and rc1 != 0
        if rc0:
            res += "\n" + o0
        if not rc1:
            res += "\n" + o1
        if ok and tests:
            x = os.path.join(d, "j.xml")
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--continue-on-collection-errors",
                            "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d + "/src"), capture_output=True)
            subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "junit:" + x], capture_output=True)
            passed = set(json.load(open(d + "/o.json"))["passed"])
            miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
            res += " tests broken=%d %s" % (len(miss), miss[:3])
            ok = not miss
        return ok, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def score(sid):
    meta = json.load(open(os.path.join(SEED, sid, "meta.json")))
    d = copy("s_" + sid)
    try:
        r = subprocess.run(["git", "apply", os.path.join(SEED, sid, "patch.diff")], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return sid, meta["property"], "NOAPPLY", r.stderr
        env = dict(os.environ, VP_REPO=d, VP_EVID=d + "/evid", VP_WORKERS="2")
        r = subprocess.run(["python3", "check.py", meta["property"]], cwd=ROOT, env=env, capture_output=True, text=True)
        caught = r.returncode == 1 and "VIOLATION property=%s" % meta["property"] in r.stdout
        first = [l for l in r.stdout.splitlines() if l.startswith("refuted")]
        return sid, meta["property"], "CAUGHT" if caught else "missed rc=%d" % r.returncode, (first[0] if first else (r.stdout + r.stderr)[-300:])[:260]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for p in args:
            make(p)
    elif cmd == "confirm":
        for s in args or sorted(os.listdir(SEED)):
            ok, res = confirm(s)
            print(("OK   " if ok else "FAIL ") + s, res, flush=True)
    elif cmd == "demo":
        for s in args:
            ok, res = confirm(s, False)
            print(("OK   " if ok else "FAIL ") + s, res, flush=True)
    elif cmd == "score":
        ids = args or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(4) as ex:
            for sid, pid, v, why in ex.map(score, ids):
                print("%-28s %s %-12s %s" % (sid, pid, v, why), flush=True)


main()
