"""C03: reflectivity is combined in linear units and converted to stored dBZ once."""
import re

from engine.scale import Scale, N, U

from . import base
from .scen import *  # noqa

WHY = {
    "twice": "the logarithm of a value already in dB is taken",
    "not-divided": "a dB value is raised to ten without dividing by ten",
    "back-twice": "a value already converted to linear units is converted again",
    "product": "a dB value is multiplied by a linear signal or transmittance",
    "mixed-sum": "a dB value and a linear signal or transmittance are added",
    "sum-in-dB": "several reflectivities are added in dB",
    "average-in-dB": "reflectivity is summed or averaged in dB",
    "branches": "the same field is in dB on one branch and linear on another",
}
DBZ = re.compile(r"^sub_col_Ze_|^sub_col_Ze$")


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for i in ("KAZR", "NEXRAD") if tier == "quick" else RADARS:
            for lg in LOGICS:
                for mie in (None,) if tier == "quick" else (None, True, False):
                    out.append((m, i, lg, mie))
                    if m in ("ModelE", "TestConvection", "DHARMA", "E3SMv1"):
                        out.append((m, i, lg, "subset"))
                        out.append((m, i, lg, "down"))
                        out.append((m, i, lg, "final"))
    return out


def leaf(t):
    nm = str(t.args[-1] if t.op == "in" else t.args[0])
    if DBZ.search(nm):
        return ("log", 10.0, 1)
    if nm == "Ze_min":
        return ("log", 20.0, 0)
    if re.search(r"_(q|n)_subcolumns_", nm):
        return ("lin", True, False)
    if re.search(r"hyd_ext|^atm_ext", nm):
        return ("lin", False, True)
    return ("lin", False, False)


def fn(s, task, o):
    m, i, lg, v = task
    kw, sk = {}, {}
    if v in (True, False):
        kw["mie_for_ice"] = v
    elif v == "down":
        sk["od"] = False
    elif v == "final":
        kw["finalize_fields"] = True
    c, sub, sim = staged(s, m, i, lg, setup_kw=sk, **kw)
    if v == "subset":
        c.events = []
        c.classes = list(c.all_classes[1:3])
        simulate(c, skip_subcol_gen=True, **LOGICS[lg])
        sim = {a: b for a, b in outputs(c).items() if b is not mk("in", a)}
    cfg = "%s, %s, %s logic%s" % (m, i, lg, "" if v is None else ", %s" % v)
    w = writes(c)
    q = Scale(leaf)
    for k, t in sorted(sim.items()):
        if "phase_mask" in k:
            continue
        n0 = len(q.problems)
        r = q(t)
        gen = k
        for h in c.all_classes:
            gen = re.sub(r"_%s(_|$)" % h, r"_<class>\1", gen)
        gen = re.sub(r"(^|_)(conv|strat)(_|$)", r"\1<cloud>\3", gen)
        for what, x in q.problems[n0:]:
            o.find("%s:%s" % (what, gen), "%s (%s): %s in %s" % (k, cfg, WHY[what], tm.show(x, 3)[:200]), w.get(k))
        if not DBZ.search(k):
            continue
        o.n("obligations")
        if r == U or r == N or has_unknown(t):
            o.unk("%s %s: scale %s" % (cfg, k, r))
            continue
        if r[0] != "log":
            o.find("stored-linear:%s" % gen, "%s (%s) is stored in linear units" % (k, cfg), w.get(k))
        elif r[1] is not None and abs(r[1] - 10) > 1e-6:
            o.find("factor:%s" % gen, "%s (%s) is stored as %g*log10" % (k, cfg, r[1]), w.get(k))
        elif r[1] is None:
            o.unk("%s %s factor unknown" % (cfg, k))
        elif r[2] is not None and (r[2] > 1 or r[2] < 0):
            o.find("weight:%s" % gen, "%s (%s) is the dB value of %d reflectivities" % (k, cfg, r[2]), w.get(k))
        if len(o.samples) < 1:
            o.samples.append("%s: %s = %g*log10(linear reflectivity)" % (cfg, k, r[1] or 0))


def main(tier):
    return base.main(
        "C03", tasks, fn, tier=tier,
        explanation=("Scale inference over the value-flow terms of every radar field: values are linear "
                     "(content-proportional or transmittance), k*log10 of a linear value, or neutral; log10 of a "
                     "decibel value, 10**x of an undivided decibel value, sums/averages of several reflectivities in "
                     "dB and sums/products of dB with linear signals are errors, and each stored sub_col_Ze field must "
                     "be 10*log10 of exactly one content-proportional quantity."),
        assumptions=["mixing ratio and number of the subcolumns enter reflectivity as linear content",
                     "an operator without a scale rule leaves the field undecided"])
