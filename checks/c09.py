"""C09: a hydrometeor contributes only in the subcolumns in which its own fraction field places it."""
import re

from engine.absence import *  # noqa

from . import base, c28, presence
from .scen import *  # noqa
from engine import ident, units

EMPTY = norm({0.0, math.nan, -math.inf, False})
SKIP = ("phase_mask", "lidar_class", "evaluate")


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "RL", "CALIOP", "MPL"):
            for l in LOGICS:
                if tier == "quick" and m not in CORE_MODELS and l == "micro":
                    continue
                out.append((m, i, l))
    return out


def empty_there(c, sub, t, ct, cls):
    """the formula's value where the class is absent, at independent points: nothing in all of them, or something, or
    unreadable (None)"""
    try:
        R = c28.Ref(c, sub, False, None)
        g, rng = c28.given_for(c, sub), c28.ranges_for(sub)
        for n in ("frac", "q", "n"):
            k = "%s_%s_subcolumns_%s" % (ct, n, cls)
            if k in sub:
                g[k] = 0
        t = units.si(t)
        return all(presence.gone(ident.Point(seed, g, rng, R.role)(t)) for seed in (1, 2, 3))
    except presence.Unread:
        return None


def fn(s, task, o):
    mname, inst, lg = task
    c = setup(s, mname, inst)
    simulate(c, subcol_gen_only=True, **LOGICS[lg])
    sub = outputs(c)
    w = writes(c)
    if inst in ("KAZR", "HSRL"):
        for k, t in sub.items():
            mm = re.match(r"(conv|strat)_(q|n)_subcolumns_(\w+)$", k)
            if not mm:
                continue
            f = "%s_frac_subcolumns_%s" % (mm[1], mm[3])
            F = sub.get(f)
            if F is None:
                continue
            o.n("obligations")
            o.n("subcolumn_fields")
            zero_const = Ev({})(t)
            e = Ev({F: ZERO})
            v = e(t)
            ok = v is not TOP and v <= EMPTY
            if e.unmodelled and not ok:
                o.unk("%s %s: %s" % (task, k, sorted(e.unmodelled)[:3]))
            elif not ok:
                o.find("sub:%s_%s" % (mm[1], mm[2]),
                       "%s (%s): %s is not empty where %s places no hydrometeor" % (mname, lg, k, f), w.get(k))
            elif zero_const == ZERO:
                o.n("identically_zero")
            if len(o.samples) < 1:
                o.samples.append("%s %s: %s with %s=0 -> %s" % (mname, lg, k, f, sorted(map(str, v or ()))))
    cut(c)
    c.events = []
    simulate(c, skip_subcol_gen=True, **LOGICS[lg])
    w = writes(c)
    for k, t in outputs(c).items():
        if t is mk("in", k) or any(x in k for x in SKIP) or not k.startswith("sub_col"):
            continue
        p = k.split("_")
        cls = [h for h in c.all_classes if h in p]
        ct = "conv" if "conv" in p else "strat" if "strat" in p else None
        if len(cls) != 1 or ct is None:
            continue
        occ = {mk("in", "%s_%s_subcolumns_%s" % (ct, q, cls[0])) for q in ("frac", "q", "n")}
        o.n("obligations")
        o.n("moment_fields")
        e = Ev({x: ZERO for x in occ})
        v = e(t)
        ok = v is not TOP and v <= EMPTY
        if not occ & tm.deps(t) and not has_unknown(t) and Ev({})(t) not in (ZERO, NAN):
            o.find("ungated:%s" % re.sub(r"_%s(_|$)" % cls[0], r"_<class>\1", k),
                   "%s %s (%s): %s does not read %s's occupancy" % (mname, inst, lg, k, cls[0]), w.get(k))
            continue
        if e.unmodelled and not ok:
            r = empty_there(c, sub, t, ct, cls[0])
            if r is None:
                o.unk("%s %s: %s" % (task, k, sorted(e.unmodelled)[:3]))
                continue
            ok = r
        gen = re.sub(r"_%s(_|$)" % cls[0], r"_<class>\1", k)
        if not ok:
            o.find("moment:%s" % gen,
                   "%s %s (%s): %s can be non-zero in a subcolumn without %s" % (mname, inst, lg, k, cls[0]), w.get(k))
            continue


def main(tier):
    return base.main(
        "C09", tasks, fn, tier=tier,
        explanation=("Constant propagation over the value-flow terms of the current source. Stage 1: in the term of "
                     "every {conv,strat}_{q,n}_subcolumns_X the sub-term of the same run's "
                     "{conv,strat}_frac_subcolumns_X is set to 0; the rest must then evaluate to {0, nan, -inf}. "
                     "Stage 2: with the generated fields cut to leaves, every per-class radar and lidar moment with "
                     "X's fraction, mixing-ratio and number leaves set to 0 must evaluate to {0, nan, -inf}."),
        assumptions=["factors other than the occupancy are finite (0*x = 0)",
                     "an operator the propagation has no rule for leaves the field undecided, never an alarm"])
