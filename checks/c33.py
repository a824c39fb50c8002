"""C33: where a class is placed is decided by the fraction fields of its class, cloud type and logic."""
from . import base, occupancy
from .scen import *  # noqa

ALL = ("own", "logic", "class", "gate", "taken", "alone")


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for lg in LOGICS:
            for par in (True, False):
                if lg == "empirical" and (tier == "quick" or not par):
                    continue
                for cv in (None, True, False):
                    out.append((m, lg, par, cv, None))
                    if par:
                        out.append((m, lg, par, cv, 1))
    return out


def fn(s, task, o):
    m, lg, par, cv, ns = task
    c = setup(s, m, "KAZR", conv=cv, nsub=ns)
    simulate(c, subcol_gen_only=True, parallel=K(par), **LOGICS[lg])
    cfg = "%s, %s logic%s%s%s" % (m, lg, "" if par else ", serial", "" if cv is None else ", convection " + (
        "on" if cv else "off"), ", one subcolumn" if ns == 1 else "")
    occupancy.judge(c, outputs(c), lg, o, cfg, writes(c), ALL, ns)
    if len(o.samples) < 1:
        o.samples.append("%s: %s" % (cfg, sorted(k for k in outputs(c) if "_frac_sub" in k)))


def main(tier):
    return base.main(
        "C33", tasks, fn, tier=tier,
        explanation=(
            "The subcolumn generator of every model, logic, serial and parallel, with and without convection, one and many "
            "subcolumns, is interpreted on symbolic fields; the term of each occupancy field is then judged: it reads its "
            "own class's fraction of its own cloud type and of the logic chosen (own mixing ratio with one subcolumn), no "
            "fraction of the other logic, no class or cloud type it must not see; the smallest subterm where a fraction "
            "meets a mixing ratio is of one class (truncation); with either cloud class absent (substituted by False) the "
            "other still counts as cloud; and with every other fraction zero (constant propagation) it is not provably "
            "empty."),
        assumptions=["how many subcolumns are filled, and with which overlap, is C27 and not decided"])
