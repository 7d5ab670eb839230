"""Run independent obligations in forked workers with a time limit each."""
import os
import pickle
import select
import signal
import sys
import threading
import time


def _child(fn, arg, w):
    res = [None]

    def go():
        try:
            res[0] = ("ok", fn(arg))
        except BaseException as e:  # noqa
            import traceback
            res[0] = ("err", "%s: %s [%s]" % (type(e).__name__, e, " / ".join(
                l.strip() for l in traceback.format_exc().strip().splitlines()[-5:-1])))
    threading.stack_size(256 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        data = pickle.dumps(res[0])
    except Exception as e:  # noqa
        data = pickle.dumps(("err", "unpicklable result: %s" % e))
    with os.fdopen(w, "wb") as f:
        f.write(data)
    if os.environ.get("VP_COVER"):
        from . import interp
        with open(os.environ["VP_COVER"], "a") as f:
            f.write("".join("%s %s\n" % q for q in interp.COVER))
    os._exit(0)


def pmap(fn, args, timeout=100, workers=None, total=700):
    """[('ok', result) | ('err', text) | ('timeout', None)] in order"""
    workers = workers or int(os.environ.get("VP_WORKERS", 0)) or max(1, min(8, os.cpu_count() or 1))
    args = list(args)
    out = [None] * len(args)
    queue = list(range(len(args)))[::-1]
    live = {}
    t_end = time.time() + total
    while queue or live:
        while queue and len(live) < workers and time.time() < t_end:
            i = queue.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _child(fn, args[i], w)
                finally:
                    os._exit(1)
            os.close(w)
            live[r] = [i, pid, b"", time.time() + timeout]
        if not live:
            for i in queue:
                out[i] = ("timeout", None)
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 16)
            if d:
                live[r][2] += d
                continue
            i, pid, buf, _t = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(buf)
            except Exception:  # noqa
                out[i] = ("err", "worker died")
        now = time.time()
        for r in list(live):
            if now > live[r][3] or now > t_end:
                i, pid, buf, _t = live.pop(r)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                out[i] = ("timeout", None)
    return out


def fold(r, results, jobs, rule, name):
    """merge worker results (lists of (verdict, rule, construct, where, detail)) into a Run"""
    for job, res in zip(jobs, results):
        kind, val = res
        if kind == "ok":
            for v, ru, con, where, det in val:
                r.add(ru, con, v, where, det)
        elif kind == "timeout":
            r.unknown(rule, name(job), None, "analysis budget exhausted")
        else:
            r.unknown(rule, name(job), None, "analyser: %s" % val)


def each(r, cases, one, rule, timeout=90):
    """one(run, case) for every case in a worker; cases have a .construct"""
    from . import report
    only = os.environ.get("VP_ONLY")  # development aid
    if only:
        import re
        cases = [c for c in cases if re.search(only, c.construct)]

    def job(i):
        q = report.Run(r.pid)
        q.guard(rule, cases[i].construct, lambda: one(q, cases[i]))
        return [(o.verdict, o.rule, o.construct, (o.file, o.line), o.detail) for o in q.obs]
    js = list(range(len(cases)))
    fold(r, pmap(job, js, timeout=timeout), js, rule, lambda i: cases[i].construct)
