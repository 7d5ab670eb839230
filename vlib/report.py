"""Obligations, verdicts, evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


class Obligation:
    """one rule instance on one construct"""

    def __init__(self, rule, construct, verdict, file="", line=0, detail=""):
        self.rule, self.construct, self.verdict = rule, construct, verdict
        self.file, self.line, self.detail = file, line, detail

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def text(self):
        return "%s: rule %s on %s at %s:%s -- %s" % (self.verdict, self.rule, self.construct, self.file, self.line, self.detail)


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.stats = {}
        self.assumptions = []
        self.missing = []
        self.t0 = time.time()

    def add(self, rule, construct, verdict, where=None, detail=""):
        f, ln = "", 0
        if where:
            f, ln = where[0], where[-1]
        o = Obligation(rule, construct, verdict, f, ln, detail)
        self.obs.append(o)
        return o

    def proved(self, rule, construct, where=None, detail=""):
        return self.add(rule, construct, PROVED, where, detail)

    def refuted(self, rule, construct, where=None, detail=""):
        return self.add(rule, construct, REFUTED, where, detail)

    def unknown(self, rule, construct, where=None, detail=""):
        return self.add(rule, construct, UNKNOWN, where, detail)

    def guard(self, rule, construct, fn, where=None):
        """run fn; an exception of the analyser leaves the instance undecided"""
        try:
            return fn()
        except RecursionError:
            self.unknown(rule, construct, where, "analysis recursion limit")
        except Exception as e:  # noqa
            self.unknown(rule, construct, where, "analyser exception %s: %s [%s]" % (
                type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))
        return None


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known:"):
                # known: property=P06 key=<rule|construct> :: text
                body = l[len("known:"):].strip()
                head, _, text = body.partition(" :: ")
                pid = head.split()[0].split("=", 1)[1]
                key = head.split("key=", 1)[1].strip()
                known[(pid, key)] = text
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def finish(run, technique_expl, floor, trusted):
    known, _ = load_known()
    obs = run.obs
    n = {v: sum(1 for o in obs if o.verdict == v) for v in (PROVED, REFUTED, UNKNOWN)}
    viol, kf = [], []
    for o in obs:
        if o.verdict == REFUTED:
            if (run.pid, o.key) in known:
                kf.append(o)
            else:
                viol.append(o)
    ev_dir = os.environ.get("VP_EVID") or os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    byrule = {}
    for o in obs:
        d = byrule.setdefault(o.rule, {PROVED: 0, REFUTED: 0, UNKNOWN: 0})
        d[o.verdict] += 1
    files = sorted({o.file for o in obs if o.file})
    ev = {
        "property": run.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": technique_expl,
            "obligations": len(obs), "discharged": n[PROVED],
            "refuted_known": len(kf), "undecided": n[UNKNOWN],
            "by_rule": byrule, "files_analysed": files,
            "undecided_instances": [o.text()[:400] for o in obs if o.verdict == UNKNOWN][:80],
            "samples": [o.text()[:400] for o in obs if o.verdict == PROVED][:12],
            "trusted_base": trusted,
        },
        "assumptions": run.assumptions,
        "wall_s": round(time.time() - run.t0, 3),
        "violations": len(viol),
    }
    ev["coverage"].update(run.stats)
    with open(os.path.join(ev_dir, run.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s: %d obligations, %d proved, %d refuted, %d undecided in %d files (%.1fs)" % (
        run.pid, len(obs), n[PROVED], n[REFUTED], n[UNKNOWN], len(files), ev["wall_s"]))
    if os.environ.get("VP_SHOW"):
        for o in obs:
            if o.verdict == UNKNOWN or os.environ["VP_SHOW"] == "all":
                print("   ", o.text())
    for o in kf:
        print("KNOWN-FINDING: property=%s %s [%s]" % (run.pid, known[(run.pid, o.key)], o.key))
    if viol:
        rp = os.path.join(ev_dir, "replay_%s.txt" % run.pid)
        with open(rp, "w") as f:
            for o in viol:
                f.write(o.text() + "\n\n")
        for o in viol:
            print(o.text())
        print("VIOLATION property=%s replay=%s" % (run.pid, rp))
        return 1
    if n[PROVED] < floor:
        print("ANALYSIS-BROKEN property=%s: only %d obligations decided, expected at least %d" % (run.pid, n[PROVED], floor))
        return 2
    return 0
