"""C07: a class's simulated fields depend only on that class's own properties."""
import re

from . import base, occupancy
from .scen import *  # noqa

ICE_CLOUD, ICE_PRECIP = ("ci",), ("pi", "sn", "gr", "ha", "pir")
RAIN_IN_RAD = ("E3SMv1_rain", "E3SMv3_rain")


def own_class(field, classes):
    p = field.split("_")
    r = [c for c in classes if c in p]
    return r[0] if len(r) == 1 else None


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "CALIOP"):
            for lg in LOGICS:
                for mie in ((None,) if tier == "quick" else (None, True, False)):
                    out.append(("sim", m, i, lg, mie))
                if tier == "quick" and lg == "micro":
                    out.append(("sim", m, i, lg, False))
        for lg in ("rad", "micro"):
            out.append(("gen", m, lg))
            out.append(("place", m, lg))
    return out


def table_phase(l):
    n = str(l.args[0]).lower()
    b = n.replace("\\", "/").split("/")[-1]
    if "liq" in b:
        return "liquid"
    if re.search(r"ice|_ci|_pi|8col|agg|mdad", b):
        return "ice"
    return None


def table_class(l):
    """class a single-particle table was made for, when its name says so"""
    b = str(l.args[0]).replace("\\", "/").split("/")[-1]
    m = re.search(r"[_.](cl|ci|pl|pi)(\.dat)?$", b)
    return m.group(1) if m else None


def foreign(o, cfg, key, fields, classes, w, phases=None):
    for k, t in fields.items():
        own = own_class(k, classes)
        if own is None:
            continue
        o.n("obligations")
        bad = leaf_classes(t, classes, ("in", "par", "stale")) - {own}
        if bad:
            lv = sorted(str(l.args[-1]) for l in tm.deps(t) if l.op in ("in", "par", "stale")
                        and set(classes_of_leaf(l, classes)) & bad)
            o.find("foreign:%s" % key(k, own), "%s (%s) of class %s is computed from %s" % (k, cfg, own, lv[:4]), w.get(k))
        for l in tm.deps(t):
            if l.op != "lut":
                continue
            if phases and own in phases:
                o.n("obligations")
                ph = table_phase(l)
                if ph and phases[own] in ("liquid", "ice") and ph != phases[own]:
                    o.find("phase:%s" % key(k, own), "%s (%s) of %s class %s reads %s table %s" % (
                        k, cfg, phases[own], own, ph, l.args[0]), w.get(k))
            tc = table_class(l)
            if tc and tc != own and not (tc in ("cl", "pl") and own in ("cl", "pl")) and \
                    not (tc == "pi" and own in ICE_PRECIP):
                o.find("table:%s" % key(k, own), "%s (%s) of class %s reads the table of class %s (%s)" % (
                    k, cfg, own, tc, l.args[0]), w.get(k))


def generic(k, own):
    return re.sub(r"_%s(_|$)" % own, r"_CLASS\1", k)


def phases_of(c):
    d = c.s.pyval(c.s.field(c.m, "hyd_types"))
    return {x: "liquid" if x in ("cl", "pl") else "ice" for x in d}


def fn(s, task, o):
    if task[0] == "gen":
        return gen(s, task, o)
    if task[0] == "place":
        return occupancy.of(s, task[1:], o, ("own", "class", "gate"))
    _, m, i, lg, mie = task
    kw = {} if mie is None else dict(mie_for_ice=mie)
    known = m in RAIN_IN_RAD and lg == "rad"
    c, sub, sim = staged(s, m, i, lg, **kw)
    cfg = "%s, %s, %s logic%s" % (m, i, lg, "" if mie is None else ", mie_for_ice=%s" % mie)

    def key(k, own):
        if known and own == "pl":
            return "rain-in-radiation-logic"
        return "%s:%s:%s" % (lg, kind_of(i), generic(k, own))
    foreign(o, cfg, key, sim, c.all_classes, writes(c), phases_of(c))
    if len(o.samples) < 1:
        k = sorted(x for x in sim if own_class(x, c.all_classes))[0]
        o.samples.append(dict(config=cfg, field=k, leaves=sorted(leafnames(sim[k], ("in", "par", "lut")))))
    classes = list(c.all_classes)
    if known:
        return
    for h in classes:
        c1 = setup(s, m, i, classes=list(classes))
        k2 = dict(LOGICS[lg], **kw)
        simulate(c1, subcol_gen_only=True, **k2)
        cut(c1)
        c1.classes = [h]
        c1.events = []
        try:
            simulate(c1, skip_subcol_gen=True, explicit_classes=True, **k2)
        except AbsRaise as e:
            o.n("stopped_before_totals")
        w = writes(c1)
        alone = outputs(c1)
        for k, t in sim.items():
            if own_class(k, classes) != h or k not in alone:
                continue
            o.n("obligations")
            a, b = unshape(t), unshape(alone[k])
            if a is not b and not has_unknown(a) and not has_unknown(b):
                o.find("state:%s" % key(k, h), "%s (%s) differs when other classes are requested too: %s" % (
                    k, cfg, str(tm.diff(alone[k], t))[:250]), w.get(k))


def gen(s, task, o):
    _, m, lg = task
    c = setup(s, m, "KAZR", conv=True)
    simulate(c, subcol_gen_only=True, **LOGICS[lg])
    cfg = "%s generator, %s logic" % (m, lg)
    w = writes(c)
    sub = outputs(c)
    for k, t in sub.items():
        own = own_class(k, c.all_classes)
        if own in ("cl", "ci") and "frac" in k:
            o.n("obligations")
            bad = leaf_classes(t, c.all_classes) - {"cl", "ci"}
            if bad:
                o.find("foreign:cloud-fraction:%s" % k, "%s (%s) depends on precipitation classes %s" % (
                    k, cfg, sorted(bad)), w.get(k))
    frac = {k for k in sub if "frac" in k}
    if not has_func(s, SC, "set_q_n"):
        o.unk("set_q_n not found")
        return
    for h in c.all_classes:
        for cv in (True, False):
            for par_ in (True, False):
                cut(c, names=frac)
                r = run(s, SC, "set_q_n", [c.m, h], dict(is_conv=cv, parallel=par_, **LOGICS[lg]))
                if r.raised is not None:
                    o.unk("%s set_q_n %s %s: %s" % (m, h, cv, r.raised))
                    continue
                c.events = r.events
                w = writes(c)
                f = {k: v for k, v in outputs(c).items() if k in w}
                foreign(o, cfg, lambda k, own: "generator:" + generic(k, own), f, c.all_classes, w)


def main(tier):
    base.TIER = tier
    return base.main("C07", tasks(tier), fn, (
        "For each model x instrument x logic the value-flow term of every per-class field (radar/lidar stage over "
        "opaque subcolumn leaves; mixing ratio and number over opaque occupancy) is checked: no leaf (field, class "
        "parameter, per-class table) of another class; scattering tables match the class's phase; and the term is "
        "identical when the class is requested alone, so no state leaks from other classes in the loop. Cloud "
        "occupancy must not depend on precipitation classes; precipitation occupancy may depend on cloud (documented "
        "overlap)."),
        assumptions=("library transfer functions of the engine", "scattering tables name their phase/class in file name "
                     "or key", "further precipitating ice classes (snow, graupel, hail) use the 'pi' Mie table as "
                     "documented"), tier=tier)
