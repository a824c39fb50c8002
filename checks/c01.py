"""C01: all-class totals combine every requested class, in any order."""
import re

from . import base, presence
from .scen import *  # noqa

LIQUID = ("cl", "pl")
TOT = re.compile(r"^(sub_col_\w+_tot_(strat|conv)|hyd_ext_(strat|conv))$")


def tasks(tier):
    out = []
    models = CORE_MODELS + ["E3SMv1_rain", "WRF_nuwrf", "E3SMv3_hybrid2", "TestConvection"] if tier == "quick" else \
        SIM_MODELS
    for m in models:
        for inst in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "CALIOP"):
            for lg in LOGICS:
                out.append((m, inst, lg, None))
            if tier != "quick":
                for lg in LOGICS:
                    out.append((m, inst, lg, "mie"))
                    out.append((m, inst, lg, "parallel"))
    for m in CORE_MODELS + ["TestConvection"] if tier == "quick" else SIM_MODELS:
        for i in ("KAZR", "HSRL"):
            for lg in LOGICS:
                out.append(("presence", m, i, lg, False))
                if tier != "quick" and lg != "empirical":
                    out.append(("presence", m, i, lg, True))
                for few in presence.FEW:
                    out.append(("presence", m, i, lg, False, few))
                out.append(("subset", m, i, lg))
    return out


def totals(s, m, inst, lg, var, classes):
    c = setup(s, m, inst, classes=classes)
    kw = dict(LOGICS[lg], parallel=var == "parallel")
    if var == "mie":
        kw["mie_for_ice"] = True
    simulate(c, subcol_gen_only=True, explicit_classes=True, **kw)
    cut(c)
    simulate(c, skip_subcol_gen=True, explicit_classes=True, **kw)
    t = outputs(c)
    return c, {k: v for k, v in t.items() if TOT.match(k)}


def rotations(cl):
    out = [list(reversed(cl))]
    for i in range(1, len(cl)):
        out.append(cl[i:] + cl[:i])
    return out


CLEAN = {"isnan", "isfinite", "lt", "le", "eq", "not", "and", "or", "dim", "isin"}
PROP = {"add", "mul", "pow", "stack", "tup", "map", "cumsum", "flip", "exp", "log10", "concatenate", "abs"}


def maynan(t, memo):
    """an explicit NaN placed on a condition reaches the value (only what is certain: NaN literals, no runtime NaN)"""
    r = memo.get(t.id)
    if r is not None:
        return r
    memo[t.id] = False
    op, a = t.op, t.args
    if op == "nan" or op == "c" and isinstance(a[0], float) and a[0] != a[0]:
        r = True
    elif op in CLEAN:
        r = False
    elif op in ("where", "phi"):
        c = a[0]
        if c.op == "isnan" and c.args[0] is a[2]:
            r = maynan(a[1], memo)
        elif c.op == "isfinite" and c.args[0] is a[1]:
            r = maynan(a[2], memo)
        elif c.op == "not" and c.args[0].op == "isnan" and c.args[0].args[0] is a[1]:
            r = maynan(a[2], memo)
        else:
            r = maynan(a[1], memo) or maynan(a[2], memo)
    elif op == "store" and a[0].op == "fill" and tm.isbool(a[1]):
        r = maynan(a[0].args[0], memo) or maynan(a[2], memo)
    elif op in PROP:
        r = any(maynan(x, memo) for x in a if isinstance(x, tm.T))
    elif op == "idx":
        r = maynan(a[0], memo)
    else:
        r = False
    memo[t.id] = r
    return r


def poison(t, cl):
    """classes whose absence (an explicit NaN) removes the contribution of another class from a sum"""
    memo, out = {}, set()
    for x in tm.nodes([t]):
        if x.op != "add":
            continue
        ca = [(y, frozenset(leaf_classes(y, cl))) for y in x.args]
        for i, (y, cs) in enumerate(ca):
            if cs and any(c2 - cs for j, (_, c2) in enumerate(ca) if j != i) and maynan(y, memo):
                out |= cs
    return out


def fn(s, task, o):
    if task[0] == "presence":
        return presence.judge(s, task[1:], o, presence.Within)
    if task[0] == "subset":
        return presence.subset(s, task[1:], o)
    m, inst, lg, var = task
    c0 = setup(s, m, inst)
    cl = c0.all_classes
    base_c, base_t = totals(s, m, inst, lg, var, cl)
    w = writes(base_c)
    for k, t in base_t.items():
        for c in cl:
            if lg == "empirical" and k.startswith("hyd_ext") and c not in LIQUID:
                continue   # this approach attenuates by liquid water only
            o.n("obligations")
            have = leaf_classes(t, cl)
            if c not in have:
                o.find("missing:%s:%s:%s" % (lg, "radar" if is_radar(inst) else "lidar", k),
                       "%s (%s, %s) does not depend on any %s quantity: class left out of or overwritten in the total"
                       % (k, m, lg, c), w.get(k))
        o.n("obligations")
        bad = poison(t, cl)
        if bad:
            o.find("poison:%s:%s:%s" % (lg, "radar" if is_radar(inst) else "lidar", k),
                   "%s (%s, %s): where %s is absent its contribution is NaN, which wipes out that of the other classes"
                   % (k, m, lg, sorted(bad)), w.get(k))
    if len(o.samples) < 2 and base_t:
        k = sorted(base_t)[0]
        o.samples.append(dict(config=list(map(str, task)), total=k, classes=cl,
                              depends_on=sorted(tm.labels(base_t[k], "in"))))
    orders = rotations(cl)
    orders = orders[:2] if base.TIER == "quick" else orders
    for od in orders:
        c1, t1 = totals(s, m, inst, lg, var, od)
        for k, t in base_t.items():
            o.n("obligations")
            u = t1.get(k)
            if u is not None and u is not t:
                a, b = unshape(t), unshape(u)
                if a is not b:
                    if has_unknown(t):
                        o.unk("%s %s: order comparison through unmodelled operations" % (task, k))
                        continue
                    o.find("order:%s:%s:%s" % (lg, "radar" if is_radar(inst) else "lidar", k),
                           "%s (%s, %s) differs for class orders %s and %s: %s" % (
                               k, m, lg, cl, od, str(tm.diff(t, u))[:200]), writes(c1).get(k))
    # a subset never brings in other classes
    if len(cl) > 2 and var is None:
        for sub in (cl[:2], [cl[0], cl[-1]]):
            c1, t1 = totals(s, m, inst, lg, var, sub)
            for k, t in t1.items():
                o.n("obligations")
                extra = leaf_classes(t, cl) - set(sub)
                if extra:
                    o.find("extra:%s:%s:%s" % (lg, "radar" if is_radar(inst) else "lidar", k),
                           "%s (%s, %s) computed for classes %s depends on %s" % (k, m, lg, sub, sorted(extra)),
                           writes(c1).get(k))


def main(tier):
    base.TIER = tier
    return base.main("C01", tasks(tier), fn, (
        "Every model x instrument x logic configuration is interpreted abstractly from the current sources with the "
        "requested classes in declared, reversed and rotated order (subcolumn fields cut to opaque leaves, so the "
        "radar/lidar stage is analysed for any subcolumn content). Obligations: each all-class total's value-flow term "
        "depends on a leaf of every requested class (and of no class that was not requested), and the canonical term "
        "is identical for all orders; no addend of a sum over classes is an explicit NaN where its own class is absent."),
        assumptions=("library transfer functions of the engine", "floating-point addition treated as commutative and "
                     "associative", "empirical radar attenuation is by liquid classes only, as its formula says"),
        tier=tier)
