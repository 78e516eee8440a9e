"""Check driver: obligations, violations, known findings, evidence."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

from .loader import Project

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Broken(Exception):
    """the analysis lost an anchor it needs: an error of the check, not a verdict"""


class Check:
    def __init__(self, pid, rule, level, min_obligations):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.min_obligations = min_obligations
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = 0
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.violations = {}       # key -> message
        self.functions = set()
        self.scenarios = 0
        self.skipped = []          # (what, why)
        self.counts = {}
        self.assumptions = []
        self.samples = []
        self.callsites = 0
        self.facts = {}            # cross-scenario facts, compared in finalize
        self.finalize = None
        self.tried = self.bad = 0
        self.project = Project(REPO)

    # -- recording
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, key, msg):
        self.obligations += 1
        if key not in self.violations:
            self.violations[key] = msg

    def oblige(self, cond, key, msg):
        if cond:
            self.ok()
        else:
            self.fail(key, msg)
        return cond

    def skip(self, what, why):
        self.skipped.append((what, str(why)))

    def ran(self, R):
        self.scenarios += 1
        self.functions |= R.I.entered

    # -- finishing
    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        try:
            with open(path) as fh:
                data = json.load(fh)
        except FileNotFoundError:
            return {}
        return {e["key"]: e for e in data.get("findings", []) if e["property"] == self.pid}

    def finish(self):
        known = self.known()
        fresh = {k: m for k, m in self.violations.items() if k not in known}
        listed = [k for k in self.violations if k in known]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "wall_s": round(time.time() - self.t0, 2),
            "coverage": {
                "explanation": "%s Obligations are decided on the interprocedural value-flow graph built from the current "
                         "source by vf/interp.py; nothing of ssspy is imported or run." % self.rule,
                "obligations": self.obligations,
                "discharged": self.discharged,
                "scenarios": self.scenarios,
                "functions_analysed": len(self.functions),
                "known_findings": len(listed),
                "unanalysed": len(self.skipped),
            },
            "assumptions": self.assumptions,
            "violations": len(fresh),
        }
        for k, v in sorted(self.counts.items()):
            ev["coverage"][k] = v
        ev["coverage"]["functions"] = sorted(self.functions)[:400]
        ev["coverage"]["samples"] = self.samples[:12]
        ev["coverage"]["unanalysed_list"] = ["%s: %s" % s for s in self.skipped[:40]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s: %s" % (self.pid, self.rule))
        print("analysed: %d scenarios, %d functions, %d obligations (%d discharged), %d not analysable, %.1f s" % (
            self.scenarios, len(self.functions), self.obligations, self.discharged, len(self.skipped),
            time.time() - self.t0))
        for k, v in sorted(self.counts.items()):
            print("  %s: %s" % (k, v))
        for s in self.skipped[:10]:
            print("  not analysed: %s: %s" % s)
        for k in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k].get("what", k)))
        if fresh:
            rep = os.path.join(VERIF, "evidence", "%s-report.txt" % self.pid)
            with open(rep, "w") as fh:
                for k, m in fresh.items():
                    fh.write("[%s]\n%s\n\n" % (k, m))
            for k, m in list(fresh.items())[:20]:
                print("  violation [%s] %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if self.obligations < self.min_obligations:
            print("analysis broken: %d obligations, at least %d expected" % (self.obligations, self.min_obligations))
            return 2
        return 0


def locstr(loc):
    return "%s:%s" % loc if loc else "?"


def sliced(seq):
    """this worker's share of the scenarios"""
    i, n = SLICE
    for k, x in enumerate(seq):
        if k % n == i:
            yield x


SLICE = (0, 1)


def worker(fn, i, n, fd):
    global SLICE
    import pickle
    SLICE = (i, n)
    try:
        chk = fn()
        d = {k: getattr(chk, k) for k in ("obligations", "discharged", "violations", "functions", "scenarios", "skipped",
                                           "counts", "assumptions", "samples", "callsites", "facts", "tried", "bad")}
        out = ("ok", d)
    except Broken as b:
        out = ("broken", str(b))
    except BaseException:
        out = ("error", traceback.format_exc())
    with os.fdopen(fd, "wb") as fh:
        pickle.dump(out, fh)


def run_parallel(fn):
    import pickle
    t0 = time.time()
    n = max(1, min(8, os.cpu_count() or 1))
    n = int(os.environ.get("VF_JOBS", n))
    if n == 1:
        chk = fn()
    else:
        kids = []
        sys.stdout.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    worker(fn, i, n, w)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        res = []
        for pid, r in kids:
            with os.fdopen(r, "rb") as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            res.append(pickle.loads(data) if data else ("error", "worker died"))
        for k, v in res:
            if k == "broken":
                raise Broken(v)
            if k == "error":
                raise RuntimeError(v)
        global SLICE
        SLICE = (0, 10 ** 9)      # the parent's own pass has no scenarios: it only sets the check up
        SETUP_ONLY.append(1)
        try:
            chk = fn()
        finally:
            SETUP_ONLY.pop()
        base = (chk.obligations, chk.discharged)
        chk.obligations = chk.discharged = chk.scenarios = 0
        chk.skipped, chk.counts, chk.violations = [], {}, {}
        for _, d in res:
            chk.obligations += d["obligations"]
            chk.discharged += d["discharged"]
            chk.scenarios += d["scenarios"]
            chk.callsites += d["callsites"]
            chk.tried += d["tried"]
            chk.bad += d["bad"]
            for k, v in d["violations"].items():
                chk.violations.setdefault(k, v)
            chk.functions |= d["functions"]
            chk.skipped += d["skipped"]
            for k, v in d["counts"].items():
                chk.counts[k] = chk.counts.get(k, 0) + v
            for x in d["samples"]:
                if x not in chk.samples:
                    chk.samples.append(x)
            for k, v in d["facts"].items():
                chk.facts.setdefault(k, v)
        chk.obligations = sum(d["obligations"] for _, d in res)
    chk.t0 = t0
    if chk.finalize:
        chk.finalize(chk)
    if chk.tried and chk.bad * 2 > chk.tried:
        raise Broken("%d of %d scenarios could not be analysed" % (chk.bad, chk.tried))
    return chk


SETUP_ONLY = []


def main(argv):
    pid = argv[1]
    from . import analyses
    if pid == "--self-test":
        pr = Project(REPO)
        print("modules parsed: %d; checks: %s" % (len(pr.modules), " ".join(sorted(analyses.registry()))))
        return 0
    mod = analyses.registry().get(pid)
    if mod is None:
        print("unknown property", pid)
        return 2
    try:
        return run_parallel(mod).finish()
    except Broken as b:
        print("analysis broken:", b)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
