"""C22: the chosen logic selects tables and particle sizes."""
import re

from . import base, occupancy
from .scen import *  # noqa
from engine.values import *  # noqa

FAMILY = {"CESM": "CESM", "ModelE": "E3"}
LIQ = ("cl", "pl")
PSD = ("sub_col_Ze", "sub_col_beta_p", "sub_col_alpha_p", "sub_col_OD")


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "WACR", "NEXRAD", "HSRL", "RL", "CALIOP"):
            for lg in LOGICS:
                for mie in (None, True, False):
                    out.append(("sel", m, i, lg, mie))
            if m in CORE_MODELS or tier != "quick":
                for lg in LOGICS:
                    for mie in (True, False):
                        out.append(("direct", m, i, lg, mie))
                out.append(("default", m, i))
        for lg in LOGICS:
            out.append(("place", m, lg))
    return out


def table_kinds(c):
    """table label -> set of (table attribute, key)"""
    s = c.s
    out = {}
    for att in ("mie_table", "scat_table", "bulk_table"):
        try:
            n = s.node(s.field(c.i, att).addr)
        except Exception:
            continue
        for k, v in getattr(n, "items", {}).items():
            if isinstance(v, Arr):
                for l in tm.deps(s.term(v)):
                    if l.op == "lut":
                        out.setdefault(str(l.args[0]), set()).add((att, str(k)))
                continue
            d = s.node(v.addr) if isinstance(v, Ref) else None
            if not isinstance(d, DS):
                continue
            for a in d.vars.values():
                x = s.node(a)
                for l in tm.deps(s.view(x.buf, x.path)):
                    if l.op == "lut":
                        out.setdefault(str(l.args[0]), set()).add((att, str(k)))
    return out


def own_class(k, classes):
    r = [h for h in classes if h in k.split("_")]
    return r[0] if len(r) == 1 else None


def fam(c):
    return getattr(c.s.field(c.m, "rad_scheme_family"), "val", None), \
        str(getattr(c.s.field(c.m, "mcphys_scheme"), "val", ""))


def fn(s, task, o):
    {"sel": sel, "direct": direct, "default": default, "place": place}[task[0]](s, task, o)


def place(s, task, o):
    """cloud fractions of the logic chosen"""
    occupancy.of(s, task[1:], o, ("logic",))


def default(s, task, o):
    """no option given = radiation logic"""
    _, m, i = task
    c, sub, sim = staged(s, m, i, "rad")
    c2 = setup(s, m, i)
    simulate(c2, subcol_gen_only=True)
    sub2 = outputs(c2)
    cut(c2)
    c2.events = []
    simulate(c2, skip_subcol_gen=True)
    o2 = {k: v for k, v in outputs(c2).items() if v is not mk("in", k)}
    w = writes(c2)
    for a, b in ((sub, sub2), (sim, o2)):
        for k in sorted(set(a) | set(b)):
            o.n("obligations")
            if k not in a or k not in b:
                o.find("default:presence:%s" % kind_of(i), "%s, %s: %s only exists %s" % (
                    m, i, k, "with use_rad_logic=True given" if k in a else "by default"), w.get(k))
            elif unshape(a[k]) is not unshape(b[k]) and not has_unknown(a[k]) and not has_unknown(b[k]):
                o.find("default:%s" % kind_of(i), "%s, %s: %s without options is not what radiation logic gives" % (
                    m, i, k), w.get(k))


def sel(s, task, o):
    _, m, i, lg, mie = task
    kw = {} if mie is None else dict(mie_for_ice=mie)
    c, sub, sim = staged(s, m, i, lg, **kw)
    tk = table_kinds(c)
    family, mp = fam(c)
    p3 = family == "P3"
    cfg = "%s, %s, %s logic%s" % (m, i, lg, "" if mie is None else ", mie_for_ice=%s" % mie)
    w = writes(c)
    kind = kind_of(i)
    for k, t in sorted(sim.items()):
        luts = sorted({str(l.args[0]) for l in tm.deps(t) if l.op == "lut"})
        if lg == "empirical":
            o.n("obligations")
            if luts:
                o.find("empirical-table:%s" % kind, "%s (%s) reads scattering table %s" % (k, cfg, luts[0]), w.get(k))
            continue
        own = own_class(k, c.all_classes)
        if own is None or not k.startswith(PSD) or "att" in k.split("_"):
            continue
        conv = "conv" in k.split("_")
        liq = own in LIQ
        unk = has_unknown(t)
        kinds = [tk.get(x, set()) for x in luts]
        p3ice = p3 and own == "ci"
        rad = lg == "rad" or conv
        mode = "rad" if rad else "micro"
        o.n("obligations")
        gen = re.sub(r"_%s(_|$)" % own, r"_<class>\1", k)

        def bad(what, msg):
            o.find("%s:%s:%s" % (mode, what, kind), "%s (%s) %s" % (k, cfg, msg), w.get(k))
        if not luts:
            if unk:
                o.unk("%s %s" % (cfg, k))
            else:
                bad("no-table", "reads no scattering table")
            continue
        if any(not x for x in kinds):
            o.unk("%s %s reads unclassified table %s" % (cfg, k, luts))
            continue
        names = leafnames(t, ("in", "stale")) | {str(l.args[-1]) for l in tm.deps(t) if l.op == "par"}
        if rad:
            if p3ice:
                if not all(("scat_table", "p3_ice") in x for x in kinds):
                    bad("p3-table", "of a P3 ice class reads %s" % luts)
                continue
            wrong = [l for l, x in zip(luts, kinds) if not any(a == "bulk_table" for a, _ in x)]
            if wrong:
                bad("single-particle-table", "reads the single-particle table %s" % wrong[0])
                continue
            keys = {b for x in kinds for a, b in x if a == "bulk_table"}
            if liq:
                good = {"CESM": {"CESM_liq", "p3_liq"}, "ModelE": {"E3_liq"}, "P3": {"CESM_liq", "p3_liq"}}.get(family)
            elif mie is True:
                good = {"CESM": {"mie_ice_CESM_PSD"}, "ModelE": {"mie_ice_E3_PSD"}}.get(family)
            else:
                good = {"CESM": {"CESM_ice"}, "ModelE": {"E3_ice"}}.get(family)
            if good is None:
                o.unk("%s %s family %s" % (cfg, k, family))
            elif not keys <= good and not all({b for a, b in x} & good for x in kinds):
                bad("table-choice", "reads bulk table %s, its scheme (%s) selects %s" % (
                    sorted(keys), family, sorted(good)))
            if not any("re_fields" in n for n in names) and not unk and not (
                    {"mu_field", "lambda_field"} <= names):
                bad("no-effective-radius", "does not depend on the class's effective radius")
            if any("_n_subcolumns_" in n for n in names):
                bad("number", "depends on the number concentration of the explicit size distribution")
            continue
        # microphysics, stratiform
        if any("re_fields" in n for n in names):
            bad("effective-radius", "depends on the radiation scheme's effective radius")
        if not any(n.startswith("strat_n_subcolumns_") for n in names) and not unk:
            bad("no-size-distribution", "does not depend on the class's number concentration")
        wrong = [l for l, x in zip(luts, kinds) if all(a == "bulk_table" for a, _ in x)]
        if wrong:
            bad("bulk-table", "reads the bulk table %s" % wrong[0])
            continue
        if liq:
            ok = all(any(a == "mie_table" and b in LIQ for a, b in x) for x in kinds)
        elif p3ice:
            # documented: ice shape is part of the P3 scheme; an explicit True is left to the caller
            ok = mie is True or all(("scat_table", "p3_ice") in x for x in kinds)
        elif mie is None or mie is True:
            ok = all(any(a == "mie_table" and b not in LIQ for a, b in x) for x in kinds)
        else:
            g = {"CESM": "CESM_ice", "ModelE": "E3_ice"}.get(family)
            ok = g is None or all(("scat_table", g) in x for x in kinds)
        if p3 and not liq and not p3ice:
            continue
        if not ok:
            bad("table-choice", "reads %s, not the table its logic selects" % luts)


def direct(s, task, o):
    """the driver and direct calls of the step functions give the same per-class and total fields"""
    _, m, i, lg, mie = task
    radar = is_radar(i)
    c, sub, sim = staged(s, m, i, lg, mie_for_ice=mie)
    cfg = "%s, %s, %s logic, mie_for_ice=%s" % (m, i, lg, mie)
    c2 = setup(s, m, i)
    simulate(c2, subcol_gen_only=True, **LOGICS[lg])
    cut(c2)
    c2.events = []
    mod, f = (RM, "calc_radar_moments") if radar else (LM, "calc_lidar_moments")
    if not has_func(s, mod, f):
        o.unk("%s not found" % f)
        return
    od = s.field(c2.i, "OD_from_sfc")
    for cv in ((False, True) if c2.conv else (False,)):
        kw = dict(LOGICS[lg], mie_for_ice=mie, OD_from_sfc=od)
        if not radar:
            kw["eta"] = s.field(c2.i, "eta")
        r = run(s, mod, f, [c2.i, c2.m, cv], kw)
        if r.raised is not None:
            o.find("direct:raises:%s" % kind_of(i), "%s(%s) raises %s: %s although the driver's call succeeds" % (
                f, cfg, r.raised[0], r.raised[1]), r.events[-1] if r.events else None)
            return
        c2.events += r.events
    w = writes(c2)
    for k, t in sorted(outputs(c2).items()):
        own = own_class(k, c2.all_classes)
        if t is mk("in", k) or k not in sim or own is None or not k.startswith("sub_col"):
            continue
        o.n("obligations")
        a, b = unshape(t), unshape(sim[k])
        if a is not b and not has_unknown(a) and not has_unknown(b):
            o.find("direct:%s" % kind_of(i), "%s (%s): the direct call %s and the driver differ: %s" % (
                k, cfg, f, str(tm.diff(t, sim[k]))[:250]), w.get(k))


def main(tier):
    return base.main(
        "C22", tasks, fn, tier=tier,
        explanation=("For each model x instrument x logic x mie_for_ice the table leaves and particle-size leaves of "
                     "every per-class field's value-flow term are classified by the instrument attribute and key they "
                     "were read from. Radiation logic: only bulk tables of the model's radiation family, sizes from the "
                     "effective-radius fields (or mu/lambda); microphysics logic (stratiform): only single-particle "
                     "tables of the chosen ice treatment, sizes from number concentration; empirical: no table. Terms "
                     "of driver and direct step calls, and of default and explicit options, are compared."),
        assumptions=["library transfer functions of the engine",
                     "P3 ice tables resolve size internally and serve both radiation and microphysics logic"])
