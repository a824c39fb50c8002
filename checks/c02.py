"""C02: convective and stratiform contributions are combined, never mixed up."""
import re

from . import base, occupancy, presence
from .scen import *  # noqa

COMBINED = re.compile(r"(_tot$|_all_hyd(_|$)|^ext_mask$|^detect_mask$|_all_hyd$)")
ATT = re.compile(r"(hyd_ext|_OD_|^ext_|att)")
OPS = ("in", "stale", "par")


def ctype(name):
    """cloud type a field or parameter is labelled with"""
    if not isinstance(name, str):
        return None
    parts = re.split(r"[_\[\]]", name)
    s_ = any(p in ("strat", "stratiform") for p in parts)
    c_ = any(p in ("conv", "convective") for p in parts)
    return "strat" if s_ and not c_ else "conv" if c_ and not s_ else None


def swap(name):
    p = re.split(r"([_\[\]])", name)
    m = {"strat": "conv", "conv": "strat", "stratiform": "convective", "convective": "stratiform"}
    return "".join(m.get(x, x) for x in p)


def tasks(tier):
    out = []
    ms = CORE_MODELS + ["E3SMv3_rain", "TestConvection"] if tier == "quick" else SIM_MODELS
    for m in ms:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "RL", "CALIOP", "HSRL1064"):
            for lg in LOGICS:
                for od in (None,) if tier == "quick" else (True, False):
                    out.append(("sim", m, i, lg, od))
    for m in ms:
        for lg in ("rad", "micro"):
            out.append(("place", m, lg))
            for par_ in (True, False):
                out.append(("qn", m, lg, par_))
    for m in CORE_MODELS + ["TestConvection"] if tier == "quick" else SIM_MODELS:
        for i in ("KAZR", "HSRL"):
            for lg in LOGICS:
                out.append(("presence", m, i, lg, False))
                if tier != "quick" and lg != "empirical":
                    out.append(("presence", m, i, lg, True))
                for few in presence.FEW:
                    out.append(("presence", m, i, lg, False, few))
    return out


def bytype(t):
    r = {"strat": set(), "conv": set()}
    for n in leafnames(t, OPS):
        k = ctype(n)
        if k:
            r[k].add(n)
    return r


def isolated(o, where, cfg, fields, w):
    for k, t in fields.items():
        own = ctype(k)
        if own is None:
            continue
        o.n("obligations")
        oth = "conv" if own == "strat" else "strat"
        bad = bytype(t)[oth]
        if "att" in k.split("_") or "mask" in k:
            bad = {b for b in bad if not ATT.search(b)}
        if bad:
            o.find("mixed:%s:%s:%s" % (where, own, re.sub(r"_(cl|ci|pl|pi\w*|gr|ha|pir)_", "_CLASS_", k)),
                   "%s (%s) is labelled %s but is computed from %s" % (k, cfg, own, sorted(bad)[:4]), w.get(k))


def combined(o, where, cfg, fields, w):
    for k, t in fields.items():
        if not COMBINED.search(k) or ctype(k) is not None:
            continue
        o.n("obligations")
        b = bytype(t)
        for ty in ("strat", "conv"):
            if not b[ty] and b["conv" if ty == "strat" else "strat"]:
                o.find("missing:%s:%s:%s" % (where, ty, k), "%s (%s) represents the whole subcolumn but has no %s "
                       "contribution" % (k, cfg, ty), w.get(k))


def symmetric(o, where, cfg, fields, w):
    """each stratiform leaf of a whole-subcolumn field has its convective counterpart"""
    for k, t in fields.items():
        if not COMBINED.search(k) or ctype(k) is not None:
            continue
        o.n("obligations")
        b = bytype(t)
        for ty in ("strat", "conv"):
            miss = {n for n in b[ty] if swap(n) not in b["conv" if ty == "strat" else "strat"]}
            if miss:
                o.find("onesided:%s:%s" % (where, k), "%s (%s) uses %s without the counterpart of the other cloud type"
                       % (k, cfg, sorted(miss)[:4]), w.get(k))


def finals(c, do):
    """whole-subcolumn stage, all earlier fields cut to leaves"""
    s = c.s
    cut(c)
    c.events = []
    before = outputs(c)

    def step(d, f, args, kw):
        if not has_func(s, d, f):
            return
        call(c, d, f, args, kw)
    if is_radar(c.iname):
        step(RM, "calc_total_reflectivity", [c.m], dict(detect_mask=True))
        step(CL, "radar_classify_phase", [c.i, c.m], {})
    else:
        step(LM, "calc_total_alpha_beta", [c.m], dict(OD_from_sfc=True))
        step(LM, "calc_LDR_and_ext", [c.m], {})
        if do:
            step(CL, "lidar_classify_phase", [c.i, c.m], {})
            step(CL, "lidar_emulate_cosp_phase", [c.i, c.m], {})
    return {k: v for k, v in outputs(c).items() if v is not before.get(k)}


def fn(s, task, o):
    if task[0] == "presence":
        return presence.judge(s, task[1:], o, presence.Across)
    if task[0] == "place":
        return occupancy.of(s, task[1:], o, ("kind", "gate", "taken"))
    if task[0] == "qn":
        _, m, lg, par_ = task
        c = setup(s, m, "KAZR", conv=True)
        simulate(c, subcol_gen_only=True, parallel=par_, **LOGICS[lg])
        frac = [k for k in outputs(c) if "frac" in k]
        gen = {k: v for k, v in outputs(c).items() if ctype(k) == "conv"}
        isolated(o, "generator", m, gen, writes(c))
        cut(c, names=set(frac))
        for h in c.all_classes:
            for cv in (True, False):
                cut(c, names=set(frac))
                c.events = []
                r = run(s, SC, "set_q_n", [c.m, h], dict(is_conv=cv, parallel=par_, **LOGICS[lg]))
                if r.raised is not None:
                    o.unk("%s set_q_n %s %s: %s" % (m, h, cv, r.raised))
                    continue
                c.events = r.events
                w = writes(c)
                f = {k: v for k, v in outputs(c).items() if k in w}
                isolated(o, "set_q_n", m, f, w)
        return
    _, m, i, lg, od = task
    do = i not in ("CEIL", "MPL", "Ten64nm", "CALIOP", "HSRL1064")
    c, sub, sim = staged(s, m, i, lg, conv=True, setup_kw=dict(od=od), **(dict(do_classify=True) if do else {}))
    cfg = "%s, %s, %s logic" % (m, i, lg)
    w = writes(c)
    isolated(o, kind_of(i), cfg, sim, w)
    combined(o, kind_of(i), cfg, sim, w)
    f = finals(c, do)
    w = writes(c)
    isolated(o, kind_of(i), cfg, f, w)
    combined(o, kind_of(i), cfg, f, w)
    symmetric(o, kind_of(i), cfg, f, w)
    if len(o.samples) < 1:
        k = sorted(x for x in f if COMBINED.search(x))[0]
        o.samples.append(dict(config=cfg, field=k, leaves={a: sorted(b) for a, b in bytype(f[k]).items()}))


def main(tier):
    base.TIER = tier
    return base.main("C02", tasks(tier), fn, (
        "Value-flow terms of every stored field, radar/lidar stage over opaque subcolumn leaves with convection on, "
        "and the whole-subcolumn steps again over opaque per-cloud-type leaves. Rules: a field labelled strat/conv has "
        "no leaf labelled with the other cloud type (attenuated and mask fields: only extinction/optical-depth "
        "leaves of the other type); a whole-subcolumn field has leaves of both; in the final steps every leaf of one "
        "type has its counterpart of the other type. Subcolumn mixing ratio and number additionally with occupancy "
        "fractions cut (placement of stratiform cloud legitimately depends on convective occupancy)."),
        assumptions=("library transfer functions of the engine", "cloud type is read from documented field names"),
        tier=tier)
