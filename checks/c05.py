"""C05: running the simulator again overwrites, never accumulates."""
import re

from . import base
from .scen import *  # noqa

# (first call, second call): options
PAIRS = [
    ("same", {}, {}),
    ("logic", dict(use_rad_logic=False), dict(use_rad_logic=True)),
    ("logic2", dict(use_rad_logic=True), dict(use_rad_logic=False)),
    ("empiric", dict(use_empiric_calc=True), dict()),
    ("sigma", dict(use_rad_logic=False), dict(use_rad_logic=False, calc_spectral_width=False)),
    ("subset", dict(), dict(__classes__="half")),
    ("classify", dict(do_classify=True), dict(do_classify=True)),
]


def tasks(tier):
    out = []
    ms = ["ModelE", "E3SMv1", "E3SMv3", "CESM2", "WRF_nssl", "WRF_morrison_gr", "DHARMA"] if tier == "quick" else \
        SIM_MODELS
    for m in ms:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "RL"):
            for lg in LOGICS:
                for skip in (False, True):
                    out.append((m, i, "same", lg, skip, i))
            for p in PAIRS[1:]:
                out.append((m, i, p[0], None, True, i))
            out.append((m, i, "same", "rad", True, "HSRL" if is_radar(i) else "KAZR"))
            out.append((m, i, "same", "micro", True, "HSRL" if is_radar(i) else "KAZR"))
            if is_radar(i):
                out.append((m, i, "same", "micro", True, "WACR"))
    return out


def simul(c, kw, skip):
    k = dict(kw)
    half = k.pop("__classes__", None)
    if half:
        k["hyd_types"] = list(c.all_classes[:max(1, len(c.all_classes) // 2)])
    return call(c, MAIN[0], MAIN[1], [c.m, c.i, c.nsub], dict(k, skip_subcol_gen=skip))


def subset_ok(kw):
    return kw


def fn(s, task, o):
    m, i, pair, lg, skip, i1 = task
    p = [x for x in PAIRS if x[0] == pair][0]
    k1, k2 = dict(p[1]), dict(p[2])
    if lg:
        k1.update(LOGICS[lg])
        k2.update(LOGICS[lg])
    cfg = "%s, %s then %s, %s%s%s" % (m, i1, i, pair, ", %s logic" % lg if lg else "", ", same subcolumns" if skip else "")
    # reference: one call on a fresh model
    c = setup(s, m, i)
    if skip:
        simulate(c, subcol_gen_only=True)
        cut(c)
    simul(c, k2, skip)
    ref = outputs(c)
    # first call, its results made opaque, then the second call
    c = setup(s, m, i)
    i2 = c.i
    if i1 != i:
        c.i = instrument(s, i1)
    if skip:
        simulate(c, subcol_gen_only=True)
        cut(c)
    keep = set(outputs(c)) if skip else set()
    simul(c, k1, skip)
    cut(c, names={k for k in outputs(c) if k not in keep}, op="stale")
    c.i = i2
    c.events = []
    r = run(s, MAIN[0], MAIN[1], [c.m, c.i, c.nsub], dict(
        {a: b for a, b in k2.items() if a != "__classes__"},
        **dict(skip_subcol_gen=skip, **({"hyd_types": list(c.all_classes[:max(1, len(c.all_classes) // 2)])}
               if "__classes__" in k2 else {}))))
    c.events = r.events
    if r.raised is not None:
        o.find("fails:%s:%s" % (pair, r.raised[0]), "%s: second call stops with %s: %s" % (cfg, r.raised[0], r.raised[1]),
               next((e for e in reversed(r.events) if e.kind == "raise"), None))
        return
    again = outputs(c)
    w = writes(c)
    kd = kind_of(i)
    for k, t in ref.items():
        o.n("obligations")
        u = again.get(k)
        if u is None:
            o.find("lost:%s:%s" % (kd, gen(k, c)), "%s: %s no longer present after the second call" % (cfg, k), w.get(k))
            continue
        st = sorted({l.args[0] for l in tm.deps(u) if l.op == "stale"})
        if st:
            if u is mk("stale", k):
                what = "is not written again"
            else:
                what = "is computed from values of the earlier call (%s)" % ", ".join(st[:3])
            o.find("stale:%s:%s" % (kd, gen(k, c)), "%s: %s %s" % (cfg, k, what), w.get(k))
            continue
        a, b = unshape(t), unshape(u)
        if a is not b and not has_unknown(a) and not has_unknown(b):
            o.find("differs:%s:%s" % (kd, gen(k, c)), "%s: %s differs from a first call: %s" % (
                cfg, k, str(tm.diff(t, u))[:250]), w.get(k))
    if len(o.samples) < 1:
        o.samples.append(dict(config=cfg, fields_compared=len(ref)))


def gen(k, c):
    for h in c.all_classes:
        k = re.sub(r"_%s(_|$)" % h, r"_CLASS\1", k)
    return k


def main(tier):
    base.TIER = tier
    return base.main("C05", tasks(tier), fn, (
        "For each configuration the simulator is interpreted twice: once on a fresh model, and once on a model whose "
        "every output field (written by an earlier call with the same or another instrument, logic or class list) is an "
        "opaque 'stale' leaf. Every field of the fresh call must be written again by the later one, must not depend "
        "on any stale leaf, and must have the identical value-flow term. Subcolumn fields are shared input in half of "
        "the configurations (skip_subcol_gen), regenerated in the other half."),
        assumptions=("library transfer functions of the engine",), tier=tier)
