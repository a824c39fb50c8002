"""C04: the viewing geometry is honoured by every path integral."""
import math
import re

from engine.dep import Dep, Unread
from engine.elem import A, Ev, indexes, lift, size
from engine.layout import Layout
from engine.orient import Orient
from engine.values import *  # noqa

from . import base
from .c16 import put
from .c17 import letters
from .scen import *  # noqa

UP = re.compile(r"layer base|(from|at) (the )?(surface|sfc|ground)", re.I)
DOWN = re.compile(r"layer top|(from|at) (the )?(toa|top)", re.I)
PATH = re.compile(r"(^|_)(OD|u_atm|tau|hyd_ext|atm_ext|ext_mask)(_|$)|^sub_col_(beta|Ze)_att|^ext_mask$")
SPACE = ("CALIOP",)


def tasks(tier):
    out = []
    insts = ("KAZR", "HSRL", "CALIOP") if tier == "quick" else \
        ("KAZR", "WACR", "NEXRAD", "HSRL", "RL", "CALIOP", "MPL", "CEIL")
    for m in SIM_MODELS if tier != "quick" else CORE_MODELS + ["TestConvection"]:
        for i in insts:
            for lg in LOGICS:
                for od in ("own", "arg"):
                    for cv in (None,) if tier == "quick" else (None, True):
                        for flag in (True, False):
                            if od == "arg" and tier == "quick" and m not in ("ModelE", "E3SMv3", "CESM2"):
                                continue
                            out.append((m, i, lg, od, flag, cv))
    for i in INSTRUMENTS:
        out.append(("geometry", i))
    for m in ("ModelE", "E3SMv1"):
        for f in (True, False):
            out.append(("steps", m, f))
    for m in ("ModelE", "E3SMv1", "DHARMA"):
        for f in (True, False):
            out.append(("weights", m, f))
    return out


def fn(s, task, o):
    if task[0] == "geometry":
        return geometry(s, task[1], o)
    if task[0] == "steps":
        return steps(s, task, o)
    if task[0] == "weights":
        return weights(s, task[1], task[2], o)
    m, i, lg, od, flag, cv = task
    sk = dict(od=flag if od == "own" else not flag)
    kw = {} if od == "own" else dict(OD_from_sfc=flag)
    cls = i == "HSRL" or is_radar(i)
    c, sub, sim = staged(s, m, i, lg, conv=cv, setup_kw=sk, do_classify=cls, **kw)
    cfg = "%s, %s, %s logic, %s%s" % (m, i, lg, "ground-based" if flag else "looking down",
                                     "" if od == "own" else " requested by OD_from_sfc argument")
    judge(s, c, sim, flag, cfg, o)
    if od == "arg" or m in ("ModelE", "CESM2"):
        reach(s, c, sim, flag, cfg, o)


def general(c, k):
    gen = k
    for h in c.all_classes:
        gen = re.sub(r"_%s(_|$)" % h, r"_<class>\1", gen)
    return re.sub(r"(^|_)(conv|strat)(_|$)", r"\1<cloud>\3", gen)


def judge(s, c, sim, flag, cfg, o, names=None):
    want = "up" if flag else "down"
    w = writes(c)
    q = Orient(s.shape)
    for k, t in sorted(sim.items()):
        if k in getattr(c, "sub_writes", {}) or "subcolumns" in k:
            continue
        gen = general(c, k)
        n0 = len(q.problems)
        frame, dirs = q(t)
        site = w.get(k)
        if frame is not None or dirs:
            o.n("fields_oriented")
        for what, x in q.problems[n0:]:
            o.find("%s:%s" % (what, gen), "%s (%s): %s in %s" % (k, cfg, {
                "misaligned": "profiles in opposite vertical order are combined",
                "axis": "running total is not taken along height",
                "shift": "layers beyond the level, not before it, enter the running total",
                "thickness": "layer thickness is taken on the far side of the level"}[what], tm.show(x, 3)[:160]), site)
        if frame == "rev":
            o.find("reversed:%s" % gen, "%s (%s) is stored in reversed vertical order" % (k, cfg), site)
        if dirs:
            o.n("obligations")
            if "?" in dirs or has_unknown(t):
                o.unk("%s %s: direction not determined" % (cfg, k))
            elif dirs != {want}:
                o.find("direction:%s" % gen, "%s (%s) integrates %s, instrument looks %s" % (
                    k, cfg, " and ".join(sorted(dirs)), want), site)
            if len(o.samples) < 1:
                o.samples.append("%s: %s integrates %s" % (cfg, k, sorted(dirs)))
        elif PATH.search(gen):
            o.n("obligations")
            if has_unknown(t):
                o.unk("%s %s: unknown value" % (cfg, k))
            elif any(x.op in ("loop", "map") for x in tm.nodes([t])):
                o.unk("%s %s: loop" % (cfg, k))
            elif frame is not None and not any(x.op == "stale" for x in tm.deps(t)):
                o.find("no-integral:%s" % gen, "%s (%s) involves no integral along the path" % (k, cfg), site)
        try:
            at, _ = s.attrs_of(c.m, k)
        except Exception:
            at = {}
        for a, txt in at.items():
            if not isinstance(txt, str):
                continue
            u, d = bool(UP.search(txt)), bool(DOWN.search(txt))
            if u == d:
                continue
            o.n("obligations")
            o.n("descriptions")
            says = "up" if u else "down"
            if says != want and "?" not in dirs:
                o.find("label:%s" % gen, "%s (%s): %s says %r, integrated %s" % (
                    k, cfg, a, " ".join(txt.split())[:90], want), site)


def reach(s, c, sim, flag, cfg, o):
    """which levels every path quantity is computed from"""
    of, dims = letters(s, c)
    w = writes(c)
    layer = {s.pyval(s.getattr(c.m, f)) for f in ("p_field", "z_field")}
    for k, t in sorted(sim.items()):
        if k in getattr(c, "sub_writes", {}) or "subcolumns" in k:
            continue
        gen = general(c, k)
        try:
            q = Dep(of, dims)
            r = q.reach(t)
        except (Unread, RecursionError) as z:
            if PATH.search(gen):
                o.unk("%s %s: %s" % (cfg, k, z))
            continue
        n = q.n["H"]
        ahead = 1 if "ext_mask" in k else 0
        far = n - 1 if flag else 0
        for leaf, at in sorted(r.items()):
            if leaf in layer or not any(j != i for i, (_, may) in at.items() for j in may):
                continue
            o.n("obligations", 2)
            o.n("paths_by_level")
            beyond = sorted((i, j) for i, (sure, _) in at.items() for j in sure
                            if (j - i if flag else i - j) > ahead)
            if beyond:
                o.find("range:%s" % gen, "%s (%s) at level %d is computed from %s at level %d, which the path from the "
                       "instrument does not cross" % (k, cfg, beyond[0][0], leaf, beyond[0][1]), w.get(k))
            if not any(abs(i - j) > 1 + ahead for i, (_, may) in at.items() for j in may):
                continue
            got = at.get(far, (set(), set()))[1]
            lost = [j for j in range(n) if j != far and j not in got]
            if lost:
                o.find("layers:%s" % gen, "%s (%s) at level %d, farthest from the instrument, leaves out %s of level %d"
                       % (k, cfg, far, leaf, lost[0]), w.get(k))


class Number(Ev):
    """numbers in the units the formulas use: conversions of units are the business of C13"""

    def o_mag(self, t, a, *r):
        return self(a)
    o_to = o_mag

    def o_m_Quantity(self, t, u, a, *r):
        return self(a)

    def o_extm(self, t, *r):
        return 1

    def o_ext(self, t, *r):
        return 1


def weights(s, m, flag, o):
    """uniform extinction over the path from the first level seen makes extinction times distance"""
    fresh(s)
    mo = raw_model(s, m)
    f = lambda k: s.pyval(s.getattr(mo, k))   # noqa: E731
    T, H = f("time_dim"), f("height_dim")
    sizes = {"subcolumn": 2, T: 3, H: 5}
    s.layout = Layout(s, sizes, {})
    dsr = Ref(s.new(DS({}, s.new(Dct({})), None, None)))
    dims, shapes = {}, {}
    s.setattr(mo, "ds", dsr)
    s.setattr(mo, "num_subcolumns", K(2))

    def add(n, d):
        if n not in shapes:
            put(s, dsr, n, d, dims)
            shapes[n] = tuple(sizes[x] for x in d)
    add(T, (T,))
    add(H, (H,))
    for n in ("p_field", "T_field", "z_field", "q_field"):
        add(f(n), (T, H))
    classes = pylist(s, s.field(mo, "hyd_types"))
    kinds = ("strat", "conv") if s.pyval(s.getattr(mo, "process_conv")) else ("strat",)
    for cv in kinds:
        for h in classes:
            add("%s_q_subcolumns_%s" % (cv, h), ("subcolumn", T, H))
            add("sub_col_alpha_p_%s_%s" % (h, cv), ("subcolumn", T, H))
            add("sub_col_beta_p_%s_%s" % (h, cv), ("subcolumn", T, H))
        add("sub_col_Ze_tot_" + cv, ("subcolumn", T, H))
    add("sub_col_OD_tot", ("subcolumn", T, H))
    s.layout = None
    full = (2, 3, 5)
    z0 = [120., 480., 1100., 2300., 5000.]
    zv = A(full[1:], [x * (1 + .2 * i) for i in range(3) for x in z0])

    def arr(nm, sh):
        t = mk("arg", nm)
        s.leaf_shapes[t] = tuple(tm.c(x) for x in sh)
        return Arr(s.new(Buf(t, "arg:" + nm)))

    def flat(sh, base):
        """the same at every level, other in every column"""
        return A(sh, [base * (1 + .3 * k) for k in range(size(sh[:-1])) for _ in range(sh[-1])])

    def dist(ix):
        i, k = ix[-2:]
        return abs(zv.at((i, k)) - zv.at((i, 0 if flag else 4)))

    def compare(mod, fname, field, values, want, cfg, say=None):
        t = s.terms_of(mo).get(field)
        if t is None:
            o.unk("%s: %s does not store %s" % (cfg, fname, field))
            return
        e = Number(3, shapes, {}, sizes, values=values)
        try:
            v = lift(e(t))
        except (Unread, RecursionError) as x:
            o.unk("%s: %s: %s" % (cfg, field, x))
            return
        if len(v.sh) not in (2, 3) or v.sh[-1] != 5 or any(isinstance(x, str) or x is None for x in v.d):
            o.unk("%s: %s has shape %s" % (cfg, field, v.sh))
            return
        o.n("obligations", len(v.d))
        o.n("levels_weighed", len(v.d))
        for ix in indexes(v.sh):
            a, b = v.at(ix), want(e, ix)
            if not abs(a - b) <= 1e-6 * max(1e-12, abs(a), abs(b)):
                g = re.sub("_(%s)_" % "|".join(classes), "_<class>_", field)
                o.find("weights:%s" % re.sub("(strat|conv)$", "<cloud>", g), say and say % (cfg, field, ix[-1], a, b) or
                       "%s: %s at level %d of a column of uniform extinction is %.6g, extinction times the distance "
                       "crossed makes %.6g" % (cfg, field, ix[-1], a, b), (mod.replace(".", "/") + ".py", 0, fname))
                return
        if len(o.samples) < 1:
            o.samples.append("%s: %s at levels 0..4 of a uniform column: %s" % (cfg, field, ["%.4g" % x for x in v.d[:5]]))

    cfg = "%s, %s" % (m, "ground-based" if flag else "looking down")
    for ci, cv in enumerate(kinds):
        for emp in (False, True):
            if has_func(s, RM, "accumulate_attenuation"):
                r = run(s, RM, "accumulate_attenuation",
                        [mo, K(cv == "conv"), arr("#z", full[1:]), arr("#hyd", full), arr("#atm", full[1:])],
                        dict(OD_from_sfc=flag, use_empiric_calc=emp))
                if r.raised is not None:
                    o.unk("%s accumulate_attenuation raises %s" % (cfg, r.raised))
                else:
                    val = {"#z": zv, "#hyd": flat(full, .7 if emp else 2e-4), "#atm": flat(full[1:], .3)}
                    dB = lambda k, ix: 10 ** (-.2 * val[k].at(ix) * dist(ix) / 1e3)   # noqa: E731
                    compare(RM, "accumulate_attenuation", "atm_ext", val, lambda e, ix: dB("#atm", ix), cfg)
                    compare(RM, "accumulate_attenuation", "hyd_ext_" + cv, val, (
                        lambda e, ix: dB("#hyd", ix)) if emp else (
                        lambda e, ix: math.exp(-2 * val["#hyd"].at(ix) * dist(ix))), cfg)
        if has_func(s, LM, "accumulate_OD"):
            for h in classes:
                r = run(s, LM, "accumulate_OD", [mo, K(cv == "conv"), arr("#z", full[1:]), K(h)],
                        dict(OD_from_sfc=flag))
                if r.raised is not None:
                    o.unk("%s accumulate_OD raises %s" % (cfg, r.raised))
                    continue
                al = "sub_col_alpha_p_%s_%s" % (h, cv)
                val = {"#z": zv, al: flat(full, 2e-4)}
                compare(LM, "accumulate_OD", "sub_col_OD_%s_%s" % (h, cv), val,
                        lambda e, ix: val[al].at(ix) * dist(ix), cfg)
    if has_func(s, LM, "calc_LDR_and_ext"):
        r = run(s, LM, "calc_LDR_and_ext", [mo], dict(ext_OD=K(4.), OD_from_sfc=flag))
        if r.raised is not None:
            o.unk("%s calc_LDR_and_ext raises %s" % (cfg, r.raised))
        else:
            path = [0., .5, 1.5, 4.5, 9.], [0., 5., 6., 7., 8.], [0., .1, .2, .3, .4], [1., 2., 3., 3.9, 4.1], \
                [0., 0., 4.1, 4.1, 4.1], [0., 3., 4., 4., 20.]
            od = A(full, [x for p in path for x in (p if flag else p[::-1])])

            def code(e, ix):
                k = ix[-1]
                nxt = k + 1 if flag else k - 1
                if od.at(ix) > 4:
                    return 2
                return 1 if 0 <= nxt < 5 and od.at(ix[:-1] + (nxt,)) > 4 else 0
            compare(LM, "calc_LDR_and_ext", "ext_mask", {"sub_col_OD_tot": od}, code, cfg,
                    "%s: %s at level %d is %g where the optical depth along the path makes it %g (2 extinct, 1 the layer "
                    "where the signal becomes extinct)")
    if has_func(s, AT, "calc_theory_beta_m"):
        r = run(s, AT, "calc_theory_beta_m", [mo, K(.532)], dict(OD_from_sfc=flag))
        if r.raised is not None:
            o.unk("%s calc_theory_beta_m raises %s" % (cfg, r.raised))
            return
        val = {f("z_field"): zv, f("p_field"): flat(full[1:], 300.), f("T_field"): flat(full[1:], 180.)}
        beta = s.terms_of(mo).get("beta")
        if beta is None:
            o.unk("%s: no beta" % cfg)
            return

        def u(e, ix):
            return lift(e(beta)).at(ix) * dist(ix)
        compare(AT, "calc_theory_beta_m", "u_atm", val, u, cfg)
        compare(AT, "calc_theory_beta_m", "tau", val, lambda e, ix: math.exp(-2 * u(e, ix)), cfg)


def geometry(s, i, o):
    fresh(s)
    o.n("obligations")
    try:
        v = s.field(raw_instrument(s, i), "OD_from_sfc")
    except AbsRaise as e:
        o.unk("%s constructor raises %s" % (i, e))
        return
    want = i not in SPACE
    if isinstance(v, K) and isinstance(v.val, bool):
        if v.val is not want:
            o.find("geometry:%s" % i, "%s has OD_from_sfc=%s but is %s" % (
                i, v.val, "ground-based" if want else "spaceborne"))
    else:
        o.unk("%s OD_from_sfc %r" % (i, v))


def steps(s, task, o):
    """direct calls of the step functions with the geometry as an argument"""
    _, m, flag = task
    cfg = "%s, direct calls with OD_from_sfc=%s" % (m, flag)
    for i, mod, f in (("KAZR", RM, "calc_radar_moments"), ("HSRL", LM, "calc_lidar_moments")):
        for lg in LOGICS:
            c = setup(s, m, i, od=not flag)
            simulate(c, subcol_gen_only=True, **LOGICS[lg])
            cut(c)
            c.events = []
            for cv in ((False, True) if c.conv else (False,)):
                r = run(s, mod, f, [c.i, c.m, cv], dict(LOGICS[lg], OD_from_sfc=flag))
                c.events += r.events
                if r.raised is not None:
                    o.unk("%s %s raises %s" % (cfg, f, r.raised))
                    return
            if f == "calc_lidar_moments":
                for g, kw in (("calc_total_alpha_beta", {}), ("calc_LDR_and_ext", {})):
                    if has_func(s, LM, g):
                        r = run(s, LM, g, [c.m], dict(OD_from_sfc=flag))
                        c.events += r.events
            judge(s, c, {k: v for k, v in outputs(c).items() if v is not mk("in", k)}, flag,
                  cfg + ", " + i + ", " + lg, o)
    c = setup(s, m, "HSRL", od=not flag)
    if has_func(s, AT, "calc_theory_beta_m"):
        r = run(s, AT, "calc_theory_beta_m", [c.m, s.field(c.i, "wavelength")], dict(OD_from_sfc=flag))
        c.events = r.events
        judge(s, c, outputs(c), flag, cfg + ", calc_theory_beta_m", o)


def main(tier):
    return base.main(
        "C04", tasks, fn, tier=tier,
        explanation=("Orientation inference over the value-flow terms: every field is in natural or reversed vertical "
                     "order (flip and reversed slices toggle it), combining both is an error, and a running sum runs "
                     "up or down by the order of its operand; one-level shifts and layer thicknesses inside the sum "
                     "must be on the crossed side. For every model x instrument x logic x geometry all directions in a "
                     "field's term must equal the instrument's (or the OD_from_sfc argument's), path quantities must "
                     "contain an integral, stored fields must be in natural order, and layer base/top, surface/TOA "
                     "wording must match. Which levels a path field reads at a level is derived per index; "
                     "in a uniform atmosphere on a small symbolic grid the path integrals are evaluated element by "
                     "element and must be extinction times distance."),
        assumptions=["height is the last dimension and increases with index (the package's convention)",
                     "running totals written as loops are undecided, not violations"])
