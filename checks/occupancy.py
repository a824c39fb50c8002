"""Which model fields decide where a class is placed among the subcolumns."""
import re

from engine import absence
from engine import terms as tm
from .scen import *  # noqa

LEAF = re.compile(r"(strat|conv)_frac_names(_for_rad)?\[(\w+)\]$|q_names_(stratiform|convective)\[(\w+)\]$")
CLOUD = ("cl", "ci")


def source(x):
    """(what, cloud type, logic, class) of an input field"""
    m = LEAF.match(str(x.args[0])) if x.op in ("in", "stale") else None
    if not m:
        return None
    if m[1]:
        return "frac", m[1], "rad" if m[2] else "micro", m[3]
    return "q", "strat" if m[4][0] == "s" else "conv", None, m[5]


def meets(t):
    """(fraction fields, mixing ratios) of the smallest terms in which the two kinds come together"""
    memo, out = {}, []
    for x in tm.nodes([t]):
        pass

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        memo[x] = (frozenset(), frozenset())
        f, q, below = set(), set(), False
        s = source(x) if x.op in ("in", "stale") else None
        if s:
            (f if s[0] == "frac" else q).add(s)
        for a in x.args:
            if isinstance(a, tm.T):
                p, r = go(a)
                below = below or bool(p and r)
                f |= p
                q |= r
        if f and q and not below:
            out.append((frozenset(f), frozenset(q)))
        memo[x] = (frozenset(f), frozenset(q))
        return memo[x]
    go(t)
    return out


def judge(c, sub, lg, o, cfg, w, rules, ns=None):
    """rules: own - decided by the own fraction; gate - truncated by the own mixing ratio; logic - no fraction of the other
    logic; class - no other class's; taken - both cloud classes count as cloud; alone - placed when no other class is"""
    occ = {k: t for k, t in sub.items() if re.match(r"(strat|conv)_frac_subcolumns_\w+$", k)}
    leaf = {t: mk("in", k) for k, t in occ.items()}
    logic = "rad" if lg in ("rad", "empirical") else "micro"
    for k, t in sorted(occ.items()):
        kind, h = k.split("_")[0], k.split("_")[-1]
        site = w.get(k)
        if has_unknown(t):
            o.unk("%s: %s unknown" % (cfg, k))
            continue
        src = {source(x): x for x in tm.deps(t)}
        src.pop(None, None)
        gen = "%s_frac_subcolumns_%s" % (kind, "<cloud>" if h in CLOUD else "<precip>")
        o.n("occupancies")
        own = ("q", kind, None, h) if ns == 1 else ("frac", kind, logic, h)
        if "own" in rules:
            o.n("obligations")
            if own not in src:
                o.find("occupancy:own:%s" % gen, "%s: %s does not read %s" % (cfg, k, name(own)), site)
                continue
        if "logic" in rules:
            o.n("obligations")
            bad = sorted(x for x in src if x[0] == "frac" and x[2] != logic)
            names = {str(src[x].args[0]) for x in src if x not in bad}
            bad = [x for x in bad if str(src[x].args[0]) not in names]
            if bad:
                o.find("occupancy:logic:%s" % gen, "%s: %s is placed by %s, the fraction of the other logic" % (
                    cfg, k, name(bad[0])), site)
        if "class" in rules:
            o.n("obligations")
            ok = {h} if kind == "conv" and h in CLOUD or ns == 1 else set(CLOUD) if h in CLOUD else None
            bad = sorted((x for x in src if ok is not None and x[3] not in ok), key=str)
            if bad:
                o.find("occupancy:class:%s" % gen, "%s: %s depends on %s" % (cfg, k, name(bad[0])), site)
        if "class" in rules or "kind" in rules:
            if kind == "conv" or ns == 1:
                bad = sorted((x for x in src if x[1] != kind), key=str)
                if bad:
                    o.find("occupancy:kind:%s" % gen, "%s: %s depends on %s" % (cfg, k, name(bad[0])), site)
        if "gate" in rules and ns != 1:
            for f, q in meets(t):
                o.n("obligations")
                o.n("truncations")
                if len({x[1::2] for x in f}) == 1 and len({x[1::2] for x in q}) == 1:
                    a, b = next(iter(f)), next(iter(q))
                    if a[1::2] != b[1::2]:
                        o.find("occupancy:gate:%s" % gen, "%s: %s: %s is truncated where %s is small" % (
                            cfg, k, name(a), name(b)), site)
        if "taken" in rules and ns != 1 and (h not in CLOUD or kind == "strat"):
            other = "conv" if h in CLOUD else kind
            have = [(x, leaf[occ[y]]) for x in CLOUD for y in ["%s_frac_subcolumns_%s" % (other, x)] if y in occ]
            if (c.conv or other == "strat") and len(have) == 2:
                u = tm.subst(t, {a: b for a, b in leaf.items() if a is not t})
                for (x, lx), (y, ly) in (have, have[::-1]):
                    o.n("obligations")
                    o.n("cloud_masks")
                    v = tm.subst(u, {ly: tm.c(False)})
                    if lx not in tm.deps(v):
                        o.find("occupancy:taken:%s" % gen, "%s: %s ignores a subcolumn's %s %s where it has no %s" % (
                            cfg, k, other, x, y), site)
        if "alone" in rules and ns != 1:
            o.n("obligations")
            z = {x: absence.ZERO for s, x in src.items() if s[0] == "frac" and s[3] != h}
            z[mk("dim", "ds", "subcolumn")] = frozenset([3.0])   # a witness: three subcolumns
            e = absence.Ev(z)
            v = e(t)
            if v is not absence.TOP and v <= absence.norm({0.0, False}):
                o.find("occupancy:alone:%s" % gen, "%s: %s is empty whenever the other classes have no fraction of their "
                       "own" % (cfg, k), site)


def water(c, sub, lg, o, cfg, w):
    """the mixing ratios and numbers of a subcolumn are divided by the fraction of the logic chosen"""
    logic = "rad" if lg in ("rad", "empirical") else "micro"
    leaf = {t: mk("in", k) for k, t in sub.items() if "_frac_subcolumns_" in k}
    for k, t in sorted(sub.items()):
        q = re.match(r"(strat|conv)_[qn]_subcolumns_(\w+)$", k)
        if not q or has_unknown(t):
            continue
        o.n("obligations")
        src = {source(x): x for x in tm.deps(tm.subst(t, leaf))}
        src.pop(None, None)
        bad = [x for x in src if x[0] == "frac" and x[2] != logic]
        names = {str(src[x].args[0]) for x in src if x not in bad}
        bad = sorted(x for x in bad if str(src[x].args[0]) not in names)
        if bad:
            o.find("water:logic:%s" % re.sub(r"_\w\w$", "", k), "%s: %s uses %s, the fraction of the other logic" % (
                cfg, k, name(bad[0])), w.get(k))


def name(s):
    k = dict(strat="stratiform", conv="convective")[s[1]]
    if s[0] == "q":
        return "the %s mixing ratio of %s" % (k, s[3])
    return "the %s %s fraction of %s" % (k, dict(rad="radiation", micro="microphysics")[s[2]], s[3])


def of(s, task, o, rules):
    m, lg = task
    c = setup(s, m, "KAZR", conv=True)
    simulate(c, subcol_gen_only=True, **LOGICS[lg])
    judge(c, outputs(c), lg, o, "%s, %s logic" % (m, lg), writes(c), rules)
    if "logic" in rules:
        water(c, outputs(c), lg, o, "%s, %s logic" % (m, lg), writes(c))
