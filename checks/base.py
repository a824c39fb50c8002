"""Runs one property's analysis over its configurations and reports."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.setrecursionlimit(60000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EMC2_REPO", "/repo")
sys.path.insert(0, ROOT)

from engine import drive as D  # noqa: E402
from engine import terms as tm  # noqa: E402

SIM = None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Out:
    """what one analysis task established"""

    def __init__(self):
        self.findings = []     # dict(key, file, line, func, msg, path)
        self.counts = {}
        self.undecided = []
        self.funcs = set()
        self.samples = []

    def n(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def find(self, key, msg, site=None, path=()):
        """site: Event, (file, line, func) or None"""
        f = dict(key=key, msg=msg, file=None, line=None, func=None, path=list(path))
        if isinstance(site, D.Event):
            f.update(file=site.file, line=site.line, func=site.func)
            f["path"] = f["path"] or ["%s:%s" % (a, b) for a, b in site.stack]
        elif site:
            f.update(file=site[0], line=site[1], func=site[2])
        self.findings.append(f)

    def unk(self, what):
        self.undecided.append(str(what)[:300])


def _worker(arg):
    fn, task, limit = arg
    o = Out()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    if SIM is not None:
        del SIM.imprecise[:]
    try:
        fn(SIM, task, o)
    except Timeout:
        o.unk("timeout %r" % (task,))
    except D.AbsRaise as e:
        o.unk("%r raised %s" % (task, e))
    except MemoryError:
        o.unk("memory %r" % (task,))
    except Exception:
        o.unk("%r: %s" % (task, traceback.format_exc()[-500:]))
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if SIM is not None:
        o.funcs |= set(SIM.stats["funcs"])
        o.counts["statements_interpreted"] = o.counts.get("statements_interpreted", 0) + SIM.stats["stmts"]
        SIM.stats["stmts"] = 0
        SIM.stats["funcs"] = set()
        if SIM.imprecise:
            # a loop without a readable bound was summarised: what it computes is not known well enough to accuse
            for f in o.findings:
                o.unk("after the unbounded loop at %s: [%s] %s" % (SIM.imprecise[0], f["key"], f["msg"]))
            o.findings = []
    return o


def load_known(pid):
    """entries of known_findings.txt for a property"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#"):
                continue
            kind, _, rest = l.partition(": ")
            if kind != "finding":
                continue
            d = json.loads(rest)
            if d["property"] == pid:
                out[d["key"]] = d
    return out


def main(pid, tasks, fn, explanation, assumptions=(), post=None, limit=120, need_sim=True, tier=None, argv=None):
    global SIM
    t0 = time.time()
    tier = tier or (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    o = Out()
    tasks = list(tasks(tier) if callable(tasks) else tasks)
    if need_sim:
        try:
            SIM = D.new_sim(REPO)
        except Exception:
            o.unk("load: " + traceback.format_exc()[-500:])
            tasks = []
    nproc = min(8, os.cpu_count() or 1, max(1, len(tasks)))
    args = [(fn, t, limit) for t in tasks]
    if nproc > 1:
        with mp.get_context("fork").Pool(nproc) as p:
            outs = p.map(_worker, args, chunksize=max(1, min(8, len(args) // (nproc * 4))))
    else:
        outs = [_worker(a) for a in args]
    for x in outs:
        o.findings += x.findings
        o.undecided += x.undecided
        o.funcs |= x.funcs
        for k, v in x.counts.items():
            o.n(k, v)
        if len(o.samples) < 6:
            o.samples += x.samples[:2]
    if post is not None:
        try:
            post(SIM, outs, o)
        except Exception:
            o.unk("post: " + traceback.format_exc()[-500:])
    known = load_known(pid)
    groups = {}
    for f in o.findings:
        groups.setdefault(f["key"], []).append(f)
    new = {k: v for k, v in groups.items() if k not in known}
    for k in sorted(groups):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, "%s.violations.json" % pid)
    if new:
        with open(rep, "w") as f:
            json.dump({k: v[:5] for k, v in sorted(new.items())}, f, indent=1, default=str)
        for k, v in sorted(new.items()):
            x = v[0]
            print("  %s:%s (%s) [%s] %s%s" % (x["file"], x["line"], x["func"], k, x["msg"],
                                          "" if len(v) == 1 else " (+%d more)" % (len(v) - 1)))
            for p in x["path"][:12]:
                print("      %s" % (p,))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    elif os.path.exists(rep):
        os.unlink(rep)
    cov = dict(explanation=explanation, configurations_analysed=len(tasks), functions_analysed=len(o.funcs),
               functions=sorted(o.funcs)[:200], undecided=len(o.undecided), undecided_samples=o.undecided[:10],
               known_findings_present=sorted(k for k in groups if k in known), samples=o.samples[:6])
    cov.update(o.counts)
    with open(os.path.join(ev, "%s.json" % pid), "w") as f:
        json.dump(dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick",
                       seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov,
                       assumptions=list(assumptions), wall_s=round(time.time() - t0, 3), violations=len(new)),
                  f, indent=1, default=str)
    print("%s %s: %d configurations, %d obligations, %d undecided, %d known, %d violations, %.1fs" % (
        pid, tier, len(tasks), o.counts.get("obligations", 0), len(o.undecided), len(groups) - len(new), len(new),
        time.time() - t0))
    return 1 if new else 0
