"""C19: supported configurations never meet an undefined name, field, key, attribute or argument."""
import os

from . import base, lint
from .scen import *  # noqa

CRASH = ("NameError", "UnboundLocalError", "KeyError", "AttributeError", "TypeError", "IndexError", "ImportError")
OPTS = [dict(), dict(use_rad_logic=False), dict(use_empiric_calc=True), dict(mie_for_ice=True),
        dict(use_rad_logic=False, mie_for_ice=True), dict(use_rad_logic=False, mie_for_ice=False),
        dict(use_rad_logic=False, calc_spectral_width=False), dict(use_rad_logic=False, use_empiric_calc=True),
        dict(chunk=2), dict(parallel=False), dict(use_rad_logic=False, parallel=False),
        dict(use_rad_logic=False, chunk=2),
        dict(do_classify=True), dict(do_classify=True, convert_zeros_to_nan=True),
        dict(do_classify=True, use_rad_logic=False),
        dict(do_classify=True, mask_height_rng=(0.0, 1000.0)), dict(OD_from_sfc=True), dict(OD_from_sfc=False),
        dict(ext_OD=4.0), dict(eta=0.7), dict(ref_rng=500.0), dict(finalize_fields=True), dict(subcol_gen_only=True),
        dict(unstack_dims=True),
        dict(nsub=1), dict(nsub=1, parallel=False), dict(nsub=1, use_rad_logic=False), dict(conv=False),
        dict(rerun=True), dict(rerun=True, use_rad_logic=False), dict(rerun=True, do_classify=True),
        dict(subset="liquid"), dict(subset="reversed"), dict(subset="liquid", use_rad_logic=False, do_classify=True),
        dict(nsub=None, rerun=True, use_empiric_calc=True)]
# options every instrument kind accepts
RADAR_ONLY = {"mask_height_rng", "ref_rng"}
LIDAR_ONLY = {"ext_OD", "eta"}
NO_PHASE = {"CEIL", "MPL", "Ten64nm", "CALIOP", "HSRL1064"}


def tasks(tier):
    out = [("lint",)]
    for m in D.MODELS:
        out.append(("ctor", m))
    for i in D.INSTRUMENTS:
        out.append(("inst", i))
    for m in WRF_RE:
        for i in ("KAZR", "HSRL"):
            for lg in ("rad", "empirical", "micro"):
                out.append(("simraw", m, i, tuple(LOGICS[lg].items())))
    insts = ["KAZR", "HSRL"] if tier == "quick" else list(D.INSTRUMENTS)
    for m in SIM_MODELS:
        for i in insts:
            for k in OPTS:
                if is_radar(i) and LIDAR_ONLY & set(k) or not is_radar(i) and RADAR_ONLY & set(k):
                    continue
                out.append(("sim", m, i, tuple(k.items())))
    few = [("cl",), ("ci",), ("pl",), ("pi",), ("cl", "ci"), ("ci", "pi"), ("pl", "cl"), ("pi", "pl", "ci")]
    for m in CORE_MODELS if tier == "quick" else SIM_MODELS:
        for i in insts:
            for sub in few:
                for k in LOGICS.values():
                    out.append(("sim", m, i, tuple(dict(k, subset=sub).items())))
                if i not in NO_PHASE:
                    out.append(("sim", m, i, tuple(dict(do_classify=True, subset=sub).items())))
    if tier == "quick":
        for i in D.INSTRUMENTS:
            if i not in insts:
                for k in (dict(), dict(use_rad_logic=False), dict(use_empiric_calc=True), dict(do_classify=True)):
                    for m in ("ModelE", "E3SMv3", "CESM2"):
                        out.append(("sim", m, i, tuple(k.items())))
    return out


def report(o, raised, events, what, cfg):
    last = None
    for e in events:
        if e.kind != "raise" or e.data["explicit"]:
            continue
        last = e
        if e.data["exc"] not in CRASH:
            continue
        if e.pc and e.data["exc"] not in ("NameError", "UnboundLocalError", "AttributeError", "KeyError", "TypeError"):
            continue
        o.find(keyof(e.data["exc"], e.data["msg"], cfg), "%s: %s in %s" % (
            e.data["exc"], e.data["msg"], what), e)


RAIN_IN_RAD = ("E3SMv1_rain", "E3SMv3_rain")


def logic_of(cfg):
    k = dict(cfg[3])
    return "empirical" if k.get("use_empiric_calc") else "rad" if k.get("use_rad_logic", True) else "micro"


def keyof(exc, msg, cfg):
    """names the failing input (configuration), not the failing line"""
    if cfg[0] == "ctor":
        return "ctor:%s:%s" % (cfg[1], exc)
    if cfg[0] == "simraw":
        return "re-fields-not-loaded:%s:%s" % (cfg[1], exc)
    if cfg[0] == "sim" and cfg[1] in RAIN_IN_RAD and logic_of(cfg) == "rad" and exc == "UnboundLocalError":
        return "rain-first-in-radiation-logic:%s" % exc
    return "%s:%s" % (exc, msg)


def fn(s, task, o):
    kind = task[0]
    if kind == "lint":
        for f in lint.files(base.REPO):
            bad, n = lint.undefined_names(f)
            o.n("syntax_nodes", n)
            o.n("obligations")
            for line, name, func in bad:
                o.find("undefined:%s" % name, "name %s is not defined in any scope" % name,
                       (os.path.relpath(f, base.REPO), line, func))
        for e in s.module_events:
            if e.kind in ("raise", "module_raise") and not e.data.get("explicit"):
                o.find("module:%s" % e.data.get("msg"), "module initialisation fails: %s" % (e.data,), e)
        return
    if kind == "ctor":
        fresh(s)
        o.n("obligations")
        try:
            raw_model(s, task[1])
        except AbsRaise as e:
            report(o, (e.exc, e.msg), s.events, "constructing %s" % task[1], task)
            return
        report(o, None, s.events, "constructing %s" % task[1], task)
        return
    if kind == "inst":
        fresh(s)
        o.n("obligations")
        try:
            raw_instrument(s, task[1])
        except AbsRaise as e:
            report(o, (e.exc, e.msg), s.events, "constructing %s" % task[1], task)
        return
    if kind == "simraw":
        fresh(s)
        o.n("obligations")
        mm, ii = model(s, task[1]), instrument(s, task[2])
        r = run(s, MAIN[0], MAIN[1], [mm, ii, Num(N_SUB, "scalar")], dict(task[3]))
        report(o, r.raised, r.events, "%s as loaded from its file, %s, options %s" % (task[1], task[2], dict(task[3])),
               task)
        return
    _, m, i, k = task
    k = dict(k)
    if k.get("do_classify") and i in NO_PHASE:
        return
    nsub, rerun, conv = k.pop("nsub", None), k.pop("rerun", False), k.pop("conv", None)
    sub = k.pop("subset", None)
    c = setup(s, m, i, conv=conv, nsub=nsub)
    if isinstance(sub, tuple):
        c.classes = [x for x in sub if x in c.all_classes]
        if not c.classes:
            return
    if sub == "liquid":
        c.classes = [x for x in c.all_classes if x in ("cl", "pl")]
    elif sub == "reversed":
        c.classes = list(reversed(c.all_classes))
    o.n("obligations")
    what = "%s with %s, options %s" % (m, i, dict(task[3]))
    for rep in range(2 if rerun else 1):
        r = run(s, MAIN[0], MAIN[1], [c.m, c.i, c.nsub],
                dict(k, **({"hyd_types": list(c.classes)} if sub else {})))
        report(o, r.raised, r.events, what + (" (second call)" if rep else ""), task)
        if r.raised is not None:
            if r.raised[0] not in CRASH:
                o.unk("%s stops with %s" % (what, r.raised))
            break
    if len(o.samples) < 1:
        o.samples.append(dict(config=what, raised=r.raised, fields=len(outputs(c))))


def main(tier):
    base.TIER = tier
    return base.main("C19", tasks(tier), fn,
                     "Abstract interpretation of every model constructor, instrument constructor and of the whole "
                     "simulator chain for each model x instrument x option set: each configuration is interpreted from "
                     "the syntax tree of the current sources over symbolic arrays; reads of names, dataset fields, "
                     "table keys, attributes and arguments that are definitely missing on the interpreted path raise "
                     "an abstract exception, which is the violation. Plus a whole-package scope analysis for undefined "
                     "global names. Undecided = configuration that ended in an explicit rejection or an unmodelled "
                     "construct.",
                     assumptions=("array library calls behave as in the engine's transfer functions",
                                  "input files hold the fields named by the model definition"), tier=tier)
