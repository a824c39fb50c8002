"""C18: classification masks use the codes of their own legend, each in the situation its name stands for."""
import itertools
import math
import re

from engine import decide, elem, units
from engine.decide import Eval, Free, polarity, num
from engine.orient import cval

from . import base
from .scen import *  # noqa
from engine.values import *  # noqa

NAN_ = float("nan")
ZERO = tm.ZERO


def tasks(tier):
    out = []
    models = CORE_MODELS if tier == "quick" else SIM_MODELS
    for m in models:
        for z in (False, True):
            out += [("radar", m, "KAZR", z, None), ("radar", m, "KAZR", z, (250., 4000.)),
                    ("lidar", m, "HSRL", z, True, None), ("cosp", m, "HSRL", z, None)]
        out += [("lidar", m, "HSRL", False, False, None), ("lidar", m, "HSRL", False, True, "own"),
                ("lidar", m, "HSRL", True, False, "own"), ("cosp", m, "HSRL", False, "ground"),
                ("cosp", m, "HSRL", False, "space"), ("ext", m, "HSRL", "ground"), ("ext", m, "HSRL", "space"),
                ("detect", m, "KAZR"), ("ratio", m), ("driver", m, "KAZR"), ("driver", m, "HSRL")]
        for i in ("WACR", "NEXRAD") if tier == "quick" else RADARS:
            if i != "KAZR":
                out.append(("radar", m, i, False, None))
    for i in ("RL", "CALIOP", "MPL", "CEIL", "Ten64nm", "HSRL1064"):
        out.append(("lidar", models[0], i, False, True, None))
    return out


def fn(s, task, o):
    globals()["t_" + task[0]](s, o, *task[1:])


# -- reading a mask ---------------------------------------------------------------------------------------------

def legend_of(s, c, k):
    at, auto = s.attrs_of(c.m, k)
    v = at.get("legend")
    r = s.pyval(v) if v is not None else None
    return [str(x) for x in r] if isinstance(r, (list, tuple)) else None


def side(t, hit):
    """+1: the comparison holds when the threshold is exceeded; -1: when it is not reached; None"""
    a, b = polarity(t.args[0], hit), polarity(t.args[1], hit)
    if a is None or b is None or a * b:
        return None
    return 1 if a - b > 0 else -1


def signal_leaves(t, hit):
    """data leaves a comparison weighs against the threshold"""
    u = tm.transform(t, lambda x: mk("c", 7.25) if hit(x) else None)
    return {l.args[0] for l in tm.deps(u) if l.op in ("in", "stale") and isinstance(l.args[0], str)}


class Judge:
    def __init__(self, s, o, c, cfg, w, zeros):
        self.s, self.o, self.c, self.cfg, self.w, self.zeros = s, o, c, cfg, w, zeros
        self.used = {}

    def outcome(self, role, t, hit, high, blank):
        """outcome of a comparison with a threshold: high = signal above it, blank = signal undefined"""
        p = side(t, hit) if t.op in ("lt", "le") else None
        if p is None:
            return None
        self.used.setdefault(role, set()).update(signal_leaves(t, hit))
        if blank:
            return False
        return high if p > 0 else not high

    def table(self, name, t, states, expect, settle, known=None, legend=None, generic=None):
        """the code in every state against the name its legend gives it"""
        s, o = self.s, self.o
        lg = legend if legend is not None else legend_of(s, self.c, name)
        generic = generic or name
        seen, total = {}, 0
        if lg is None:
            o.find("no-legend:%s" % generic, "%s: %s has no legend" % (self.cfg, name), self.w.get(name))
            return
        for st in states:
            o.n("states")
            try:
                v = Eval(lambda a, sh: settle(st, a, sh), (lambda a, sh: known(st, a, sh)) if known else None)(t)
            except Free as e:
                o.unk("%s %s: comparison not settled: %s" % (self.cfg, name, tm.show(e.args[0], 4)))
                return
            if not num(v):
                o.unk("%s %s: value not folded: %s" % (self.cfg, name, tm.show(v.t, 5)))
                return
            want = expect(st)
            total += 1
            o.n("obligations")
            if v != v or v == 0:
                if want is not None:
                    o.find("missing:%s:%s" % (generic, want), "%s: %s is clear where the definition gives %r (%s)" % (
                        self.cfg, name, want, st), self.w.get(name))
                elif self.zeros is not None and (v != v) != self.zeros:
                    o.find("clear:%s" % generic, "%s: %s marks clear sky with %s when convert_zeros_to_nan=%s" % (
                        self.cfg, name, v, self.zeros), self.w.get(name))
                continue
            if v != int(v) or not 1 <= v <= len(lg):
                o.find("code:%s:%s" % (generic, v), "%s: %s takes the code %s, its legend has %d entries" % (
                    self.cfg, name, v, len(lg)), self.w.get(name))
                continue
            got = lg[int(v) - 1]
            seen[got] = seen.get(got, 0) + 1
            if got != want:
                o.find("meaning:%s:%s" % (generic, want), "%s: %s is %d (%r) where the definition gives %r (%s)" % (
                    self.cfg, name, v, got, want or "clear sky", st), self.w.get(name))
        for x in lg:
            o.n("obligations")
            if x not in seen and total:
                o.find("unreachable:%s:%s" % (generic, x), "%s: %s never takes the code of %r" % (self.cfg, name, x),
                       self.w.get(name))
        if len(o.samples) < 2:
            o.samples.append("%s %s: %d states, legend %s, each code met: %s" % (self.cfg, name, total, lg, seen))

    def signals(self, name, generic, want):
        """each threshold is compared with the signal of the mask's own cloud type"""
        for role, exp in want.items():
            got = self.used.get(role, set())
            self.o.n("obligations")
            if got and not got <= exp:
                self.o.find("signal:%s:%s" % (generic, role), "%s: %s decides %s from %s, not from %s" % (
                    self.cfg, name, role, sorted(got - exp), sorted(exp)), self.w.get(name))
        self.used = {}


def prepared(s, m, inst, od=None):
    c = setup(s, m, inst, od=od)
    simulate(c, **LOGICS["rad"])
    cut(c)
    c.events = []
    return c


def act(c, o, mod, f, args, kw):
    r = run(c.s, mod, f, args, kw)
    if r.raised is not None:
        o.unk("%s raises %s" % (f, r.raised))
        return {}, {}
    return {k: v for k, v in outputs(c).items() if v is not mk("in", k)}, \
        {e.data.get("name"): e for e in r.events if e.kind == "dsset"}


def clouds(c):
    """suffix of the cloud-type signals -> generic name of the mask"""
    return (("strat", "conv", "tot") if c.conv else ("tot",))


def is_leaf(name):
    return lambda t: t.op in ("in", "stale") and t.args[0] == name


def has(t, hit):
    return any(hit(x) for x in tm.nodes([t]))


# -- radar ------------------------------------------------------------------------------------------------------

def t_radar(s, o, m, inst, zeros, rng):
    c = prepared(s, m, inst)
    kw = dict(convert_zeros_to_nan=zeros)
    if rng:
        kw["mask_height_rng"] = Tup(tuple(K(x) for x in rng))
    f, w = act(c, o, CL, "radar_classify_phase", [c.i, c.m], kw)
    radar_masks(s, o, c, f, w, "%s, %s%s" % (m, inst, ", height range" if rng else ""), zeros, rng)


def radar_masks(s, o, c, f, w, cfg, zeros, rng=None):
    name = s.field(c.i, "instrument_str")
    nm = getattr(name, "val", None)
    zf = getattr(s.field(c.m, "z_field"), "val", None)
    zmin = is_leaf("Ze_min")
    for ct in clouds(c):
        k = "phase_mask_%s_sounding_all_hyd" % nm if ct == "tot" else "%s_phase_mask_%s_sounding" % (ct, nm)
        if k not in f:
            if f:
                o.find("absent:%s_phase_mask_<inst>_sounding" % ct, "%s: %s is not produced" % (cfg, k))
            continue
        own = ["strat_frac_subcolumns_cl", "conv_frac_subcolumns_cl"]
        own = own[:1] if ct == "strat" or not c.conv else own[1:] if ct == "conv" else own
        ze = "sub_col_Ze_att_tot" + ("" if ct == "tot" else "_" + ct)
        j = Judge(s, o, c, cfg, w, zeros)
        states = []
        for det in ("above", "below", "undefined"):
            for cl in itertools.product((False, True), repeat=len(own)):
                for z in ("in",) if not rng else ("in", "under", "over"):
                    states.append((det, cl, z))
        strange = set()

        def settle(st, a, sh):
            det, cl, z = st
            if has(a, zmin):
                return j.outcome("detection", a, zmin, det == "above", det == "undefined")
            if rng and zf in leafnames(a):
                ok = set()
                for lim, hi in ((rng[0], z != "under"), (rng[1], z == "over")):
                    hit = lambda x: x.op == "c" and num(x.args[0]) and abs(abs(x.args[0]) - lim) < 1e-9
                    if has(a, hit):
                        p = side(a, hit)
                        if p is not None:
                            ok.add(hi if p > 0 else not hi)
                return ok.pop() if len(ok) == 1 else None
            lf = leafnames(a)
            if len(lf) == 1:
                x = lf.pop()
                mt = re.match(r"(conv|strat)_frac_subcolumns_(\w+)$", x)
                if mt:
                    if x in own:
                        return cloud_atom(a, x, cl[own.index(x)])
                    strange.add(x)
                    return False
            return None

        def expect(st):
            det, cl, z = st
            if z != "in":
                return None
            d, q = det == "above", any(cl)
            return "Mixed" if d and q else "Precip" if d else "Cloud" if q else None
        j.table(k, f[k], states, expect, settle, generic="%s_phase_mask_<inst>_sounding" % ct)
        if strange:
            o.find("signal:%s_phase_mask_<inst>_sounding:cloud" % ct, "%s: %s takes cloud occurrence from %s, not %s" % (
                cfg, k, sorted(strange), own), w.get(k))
        j.signals(k, "%s_phase_mask_<inst>_sounding" % ct, {"detection": {ze}})


def cloud_atom(a, x, yes):
    """outcome of a test of an occupancy field that is 1 where there is cloud and 0 elsewhere"""
    hit = is_leaf(x)
    if hit(a):
        return yes

    def known(t, sh):
        return (1 if yes else 0) if hit(t) else None
    try:
        v = Eval(lambda b, sh: None, known)(a)
    except Free:
        return None
    return bool(v) if num(v) else None


# -- lidar ------------------------------------------------------------------------------------------------------

OWN = [{"class": "second", "class_ind": 2, "LDR": [0., 1.], "beta_p": [1e-6, 1e-6]},
       {"class": "third", "class_ind": 3, "LDR": [0., 0.3, 1.], "beta_p": [1e-5, 1e-5, 2e-4]},
       {"class": "first", "class_ind": 1, "LDR": [0., 0.6, 1.], "beta_p": [1e-3, 2e-3, 1.]}]


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def regions(defs):
    """points inside every region of the (LDR, log10 backscatter) plane that the thresholds delimit"""
    xs = sorted({x for d in defs for x in d["LDR"]} | {0., 1.})
    curves = [(d["LDR"], [math.log10(b) for b in d["beta_p"]]) for d in defs]
    cuts = set(xs)
    for a, b in zip(xs, xs[1:]):
        for (p, q), (u, v) in itertools.combinations(curves, 2):
            da, db = interp(a, p, q) - interp(a, u, v), interp(b, p, q) - interp(b, u, v)
            if da * db < 0:
                cuts.add(a + (b - a) * da / (da - db))
    xs = sorted(cuts)
    pts = xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])]
    out = []
    for x in sorted(pts):
        lv = sorted({interp(x, p, q) for p, q in curves})
        ys = [lv[0] - 1] + [(a + b) / 2 for a, b in zip(lv, lv[1:]) if b - a > 1e-9] + [lv[-1] + 1]
        out += [(x, y) for y in ys]
    return out


def numbers(t):
    if t.op in ("tup", "lst"):
        r = [numbers(x) for x in t.args]
        return None if any(x is None for x in r) else r
    if t.op == "c" and num(t.args[0]):
        return t.args[0]
    if t.op == "log10":
        r = numbers(t.args[0])
        f = lambda x: [f(y) for y in x] if isinstance(x, list) else math.log10(x)
        return None if r is None else f(r)
    if t.op in ("np:asarray", "np:array"):
        return numbers(t.args[0])
    return None


def t_lidar(s, o, m, inst, zeros, sub, own):
    try:
        c = prepared(s, m, inst)
    except AbsRaise as e:
        o.unk("%s %s: %s" % (m, inst, e))
        return
    if own:
        defs = OWN
    else:
        v = s.field(c.i, "beta_p_phase_thresh")
        defs = s.pyval(v) if v is not None else None
        if not defs:
            o.n("no_default_thresholds")
            return
        tables(s, o, inst, defs)
    kw = dict(convert_zeros_to_nan=zeros, remove_sub_detect=sub, ext_OD=opt("ext_OD"))
    if own:
        kw["beta_p_phase_thresh"] = py(s, own and [dict(d) for d in OWN])
    f, w = act(c, o, CL, "lidar_classify_phase", [c.i, c.m], kw)
    lidar_masks(s, o, c, f, w, "%s, %s%s" % (m, inst, ", user thresholds" if own else ""), zeros, sub, defs,
                lambda x: x.op == "opt" and x.args[0] == "ext_OD")


def tables(s, o, inst, defs):
    """the tables themselves: complete entries, one code per class, every class obtainable"""
    ind = sorted(d.get("class_ind") for d in defs)
    o.n("obligations", 2)
    if ind != list(range(1, len(defs) + 1)):
        o.find("codes:%s" % inst, "%s: class codes %s are not 1..%d" % (inst, ind, len(defs)))
    for d in defs:
        o.n("obligations")
        if len(d["LDR"]) != len(d["beta_p"]) or sorted(d["LDR"]) != list(d["LDR"]):
            o.find("curve:%s:%s" % (inst, d["class"]), "%s: threshold curve of %r is not a function of LDR" % (
                inst, d["class"]))


def lidar_masks(s, o, c, f, w, cfg, zeros, sub, defs, ext):
    nm = getattr(s.field(c.i, "instrument_str"), "val", None)
    pts = regions(defs)
    isint = lambda x: x.op == "np:interp"
    for ct in clouds(c):
        k = "phase_mask_%s_all_hyd" % nm if ct == "tot" else "%s_phase_mask_%s" % (ct, nm)
        if k not in f:
            if f:
                o.find("absent:%s_phase_mask_<lidar>" % ct, "%s: %s is not produced" % (cfg, k))
            continue
        sf = "tot" if ct == "tot" else ct
        beta = "sub_col_beta_p_tot" + ("" if ct == "tot" else "_" + ct)
        od = "sub_col_OD_tot" + ("" if ct == "tot" else "_" + ct)
        j = Judge(s, o, c, cfg, w, zeros)
        states = [(x, y, e) for x, y in pts for e in ("live", "extinct", "undefined")] + \
            [(0.1, b, e) for b in ("zero", "nan") for e in ("live", "extinct", "undefined")]
        odd = {}

        def settle(st, a, sh):
            x, y, e = st
            if has(a, ext):
                return j.outcome("extinction", a, ext, e == "extinct", e == "undefined")
            if has(a, isint):
                n = [q for q in tm.nodes([a]) if isint(q)]
                if len(n) != 1 or len(n[0].args) < 3:
                    return None
                xs, ys = numbers(n[0].args[1]), numbers(n[0].args[2])
                if xs is None or ys is None or len(xs) != len(ys):
                    return None
                odd.setdefault("LDR", set()).update(leafnames(n[0].args[0]))
                if y in ("zero", "nan"):
                    p = side(a, isint)
                    j.used.setdefault("backscatter", set()).update(signal_leaves(a, isint))
                    return None if p is None else p < 0 if y == "zero" else False
                logs = has(n[0].args[2], lambda q: q.op == "log10") or max(ys) <= 0
                thr = interp(x, xs, ys)
                if not logs:
                    thr = math.log10(thr)
                return j.outcome("backscatter", a, isint, y > thr, False)
            if leafnames(a) and all(q.startswith("sub_col_beta_p") for q in leafnames(a)):
                hit = lambda q: q.op in ("in", "stale")
                j.used.setdefault("backscatter", set()).update(leafnames(a))

                def known(q, sh):
                    return (0. if y == "zero" else NAN_ if y == "nan" else 10 ** y) if hit(q) else None
                try:
                    v = Eval(lambda b, sh: None, known)(a)
                except Free:
                    return None
                return bool(v) if num(v) else None
            return None

        def expect(st):
            x, y, e = st
            if y in ("zero", "nan") or sub and e == "extinct":
                return None
            r = None
            for d in defs:
                if y > interp(x, d["LDR"], [math.log10(b) for b in d["beta_p"]]):
                    r = d["class"]
            return r
        g = "%s_phase_mask_<lidar>" % ct
        j.table(k, f[k], states, expect, settle, generic=g)
        j.used["LDR"] = odd.get("LDR", set())
        j.signals(k, g, {"extinction": {od}, "backscatter": {beta}, "LDR": {"sub_col_LDR_" + sf}})


# -- COSP -------------------------------------------------------------------------------------------------------

def t_cosp(s, o, m, inst, zeros, od):
    c = prepared(s, m, inst, od=None)
    kw = dict(convert_zeros_to_nan=zeros, cloud_SR_thresh=opt("cloud_SR_thresh"),
              undef_SR_thresh=opt("undef_SR_thresh"), phase_disc_curve=opt("phase_disc_curve"))
    if od:
        kw["OD_from_sfc"] = od == "ground"
    f, w = act(c, o, CL, "lidar_emulate_cosp_phase", [c.i, c.m], kw)
    cosp_masks(s, o, c, f, w, "%s, %s" % (m, inst), zeros)


def cosp_masks(s, o, c, f, w, cfg, zeros):
    cloud = lambda x: x.op == "opt" and x.args[0] == "cloud_SR_thresh"
    undef = lambda x: x.op == "opt" and x.args[0] == "undef_SR_thresh"
    disc = lambda x: x.op == "np:polyval" and has(x.args[0], lambda q: q.op == "opt" and
                                                  q.args[0] == "phase_disc_curve")
    tf = getattr(s.field(c.m, "T_field"), "val", None)
    for ct in (("strat", "conv", "tot") if c.conv else ("strat", "tot")):
        k = "COSP_phase_mask_all_hyd" if ct == "tot" else "%s_COSP_phase_mask" % ct
        if k not in f:
            if f:
                o.find("absent:%s_COSP_phase_mask" % ct, "%s: %s is not produced" % (cfg, k))
            continue
        j = Judge(s, o, c, cfg, w, zeros)
        states = []
        for sr in ("clear", "cloudy", "opaque", "undefined"):
            for n in (0, 1, 2):
                if sr == "opaque" and n == 0:
                    continue
                for cross in ("above", "below", "undefined"):
                    if (cross == "undefined") != (sr == "undefined"):
                        continue
                    for T in ("warm", "mixed", "cold"):
                        states.append((sr, n, cross, T))

        def known(st, t, sh):
            if t.op in ("cumsum", "np:cumsum", "nancumsum") and has(t, undef):
                return st[1]
            if t.op in decide.FLIP and has(t, undef) and has(t, lambda q: q.op in ("cumsum", "np:cumsum")):
                return st[1]
            return None

        def settle(st, a, sh):
            sr, n, cross, T = st
            if has(a, disc):
                return j.outcome("phase", a, disc, cross == "above", cross == "undefined")
            if has(a, cloud):
                return j.outcome("cloud", a, cloud, sr in ("cloudy", "opaque"), sr == "undefined")
            if has(a, undef) and not has(a, lambda q: "cumsum" in q.op):
                return j.outcome("opaque", a, undef, sr == "opaque", sr == "undefined")
            if leafnames(a) == {tf}:
                for lim, high in ((273.15, T == "warm"), (233.15, T != "cold")):
                    hit = lambda x: x.op == "c" and num(x.args[0]) and abs(abs(x.args[0]) - lim) < 1e-9
                    if has(a, hit) and a.op in ("lt", "le"):
                        p = side(a, lambda x: x.op in ("in", "stale"))
                        if p is not None:
                            return not high if p > 0 else high
            return None

        def expect(st):
            sr, n, cross, T = st
            if sr not in ("cloudy", "opaque"):
                return None
            if n > 0 and not (sr == "opaque" and n == 1):
                return "undef"
            return "liquid" if T == "warm" else "ice" if T == "cold" or cross == "above" else "liquid"
        g = "%s_COSP_phase_mask" % ct
        j.table(k, units.si(f[k]), states, expect, settle, known, generic=g)
        for role, lv in j.used.items():
            o.n("obligations")
            if role not in ("cloud", "opaque", "phase"):
                continue
            bad = {x for x in lv if x.startswith("sub_col") and (
                ct == "strat" and "_conv" in x or ct == "conv" and "_strat" in x)}
            if bad:
                o.find("signal:%s:%s" % (g, role), "%s: %s decides %s from %s" % (cfg, k, role, sorted(bad)), w.get(k))
            if ct == "tot" and c.conv:
                for x in ("_conv", "_strat"):
                    o.n("obligations")
                    if not any(x in y for y in lv):
                        o.find("signal:%s:%s" % (g, role), "%s: %s decides %s without the %s signal" % (
                            cfg, k, role, x[1:]), w.get(k))


# -- extinction and detection masks -----------------------------------------------------------------------------

def t_ext(s, o, m, inst, od):
    c = prepared(s, m, inst)
    f, w = act(c, o, LM, "calc_LDR_and_ext", [c.m], dict(ext_OD=opt("ext_OD"), OD_from_sfc=od == "ground"))
    if "ext_mask" not in f:
        return
    ext = lambda x: x.op == "opt" and x.args[0] == "ext_OD"
    way = 1 if od == "ground" else -1
    j = Judge(s, o, c, "%s, %s, lidar at %s" % (m, inst, od), w, None)
    # extinct in the layer before / here / in the layer after along the beam (None: there is none)
    states = [(p, h, n) for p in (None, False, True) for h in (False, True) for n in (None, False, True)
              if not (p and not h) and not (h and n is False)]

    def settle(st, a, sh):
        if a.op == "edge":
            return st[1 + a.args[0] * way] is None
        if has(a, ext):
            if sh not in (0, 1, -1):
                return None
            return j.outcome("extinction", a, ext, bool(st[1 + sh * way]), False)
        return None

    def expect(st):
        return "signal extinct" if st[1] else "signal becomes extinct" if st[2] else None
    j.table("ext_mask", f["ext_mask"], states, expect, settle,
            legend=["signal becomes extinct", "signal extinct"], generic="ext_mask")
    j.signals("ext_mask", "ext_mask", {"extinction": {"sub_col_OD_tot"}})


def t_detect(s, o, m, inst):
    c = prepared(s, m, inst)
    f, w = act(c, o, RM, "calc_total_reflectivity", [c.m], dict(detect_mask=True))
    if "detect_mask" not in f:
        return
    zmin = is_leaf("Ze_min")
    j = Judge(s, o, c, "%s, %s" % (m, inst), w, None)
    t = f["detect_mask"]

    def settle(st, a, sh):
        if has(a, zmin):
            return j.outcome("detection", a, zmin, st == "above", st == "undefined")
        return None

    def known(st, x, sh):
        sg = f.get("sub_col_Ze_att_tot")
        if x is sg and sg is not None:
            return NAN_ if st == "undefined" else None
        return None
    j.table("detect_mask", t, ["above", "below", "undefined"],
            lambda st: None if st == "above" else "below noise floor", settle, known,
            legend=["below noise floor"], generic="detect_mask")
    u = j.used.get("detection", set())
    o.n("obligations")
    if u and not any("Ze_tot" in x for x in u):
        o.find("signal:detect_mask:detection", "%s: detect_mask is decided from %s" % (m, sorted(u)),
               w.get("detect_mask"))
    if u and not u & {"atm_ext", "hyd_ext_strat"}:
        o.find("signal:detect_mask:attenuation", "%s: detect_mask ignores attenuation (reads %s)" % (m, sorted(u)),
               w.get("detect_mask"))


# -- phase ratios -----------------------------------------------------------------------------------------------

def fraction(t):
    """numerator and denominator factors of a quotient, or None"""
    if t.op in ("where", "phi"):
        for x in t.args[1:]:
            r = fraction(x)
            if r:
                return r
        return None
    if t.op in SHAPE:
        return fraction(t.args[0])
    if t.op != "mul":
        return None
    den = [x for x in t.args if x.op == "pow" and cval(x.args[1]) == -1]
    nu = [x for x in t.args if x not in den]
    return (nu, [x.args[0] for x in den]) if len(den) == 1 and nu else None


SHAPE = decide.SHAPE_ONLY


def t_ratio(s, o, m):
    c = prepared(s, m, "HSRL")
    simulate(c, skip_subcol_gen=True, do_classify=True, **LOGICS["rad"])
    cut(c)
    var = "COSP_phase_mask_all_hyd"
    f, w = act(c, o, CL, "calculate_phase_ratio", [c.m, var, opt("numer")], dict(mask_allhyd=opt("denom")))
    k = var + "_fpr"
    if k in f:
        fr = fraction(f[k])
        cfg = "%s, frequency phase ratio" % m
        if fr is None:
            o.unk("%s: not a quotient: %s" % (cfg, tm.show(f[k], 4)))
        else:
            lab = lambda ts: {l.args[0] for x in ts for l in tm.deps(x) if l.op == "opt"}
            o.n("obligations", 3)
            if lab(fr[0]) != {"numer"} or lab(fr[1]) != {"denom"}:
                o.find("ratio:codes", "%s: numerator counts %s, denominator counts %s" % (
                    cfg, sorted(lab(fr[0])), sorted(lab(fr[1]))), w.get(k))
            lv = {x for t in fr[0] + fr[1] for x in leafnames(t)}
            if lv != {var}:
                o.find("ratio:mask", "%s: counts %s instead of %s" % (cfg, sorted(lv), var), w.get(k))
            a, _ = s.attrs_of(c.m, k)
            for nm, want in (("hyd_numer_val", "numer"), ("hyd_denom_val", "denom")):
                o.n("obligations")
                v = a.get(nm)
                if v is not None and v != opt(want) and isinstance(v, Num) and v != opt(want):
                    d = {l.args[0] for l in tm.deps(s.term(v)) if l.op == "opt"}
                    if d and d != {want}:
                        o.find("ratio:attrs", "%s: attribute %s holds %s" % (cfg, nm, sorted(d)), w.get(k))
            o.samples.append("%s: numerator %s, denominator %s" % (cfg, lab(fr[0]), lab(fr[1])))
    frequencies(c, o, m, var)
    for sub in (True, False):
        f, w = act(c, o, CL, "calculate_phase_ratio", [c.m, var, K(1)], dict(mass_pr=True, mpr_subcolmod=sub))
        for k in ((var + "_mpr", var + "_mpr_sum") if sub else ("mpr_q",)):
            if k not in f:
                continue
            fr = fraction(f[k])
            if fr is None:
                o.unk("%s %s: not a quotient: %s" % (m, k, tm.show(f[k], 4)))
                continue
            o.n("obligations", 2)
            up, dn = [set().union(*[cls_of(s, c, t) for t in x]) for x in fr]
            liq = {x for x in c.all_classes if x in ("cl", "pl")}
            if up != liq:
                o.find("ratio:liquid:%s" % k, "%s: %s has %s in the numerator, the liquid classes are %s" % (
                    m, k, sorted(up), sorted(liq)), w.get(k))
            if dn != set(c.all_classes):
                o.find("ratio:total:%s" % k, "%s: %s has %s in the denominator, the classes are %s" % (
                    m, k, sorted(dn), sorted(c.all_classes)), w.get(k))
            once(s, o, c, m, k, fr, liq, w)
            for x in sub and c.conv and ("conv", "strat") or ():
                o.n("obligations")
                for nm, ts in (("numerator", fr[0]), ("denominator", fr[1])):
                    if not any(y.startswith(x + "_q") for t in ts for y in leafnames(t)):
                        o.find("ratio:cloud:%s" % k, "%s: %s leaves %s mass out of its %s" % (m, k, x, nm), w.get(k))


def frequencies(c, o, m, var):
    """the share of the named classes among all classes of the mask, cell by cell"""
    cells = [(0, 0, 0), (1, 1, 1), (1, 0, 2), (3, 2, 1), (2, 3, 0), (0, 3, 3), (2, 2, 2), (1, 2, 3)]
    k = var + "_fpr"
    for nu in (1, 2, (1, 3), 3):
        for de in (None, (1, 2, 3), (2, 3)):
            lst = lambda v: K(v) if isinstance(v, int) else c.s.lst([("item", K(x)) for x in v])
            f, w = act(c, o, CL, "calculate_phase_ratio", [c.m, var, lst(nu)], {} if de is None else dict(
                mask_allhyd=lst(de)))
            if k not in f:
                continue
            cfg = "%s, phase ratio of class %s%s" % (m, nu, "" if de is None else " among %s" % (de,))
            try:
                e = elem.Ev(1, {}, {}, {"subcolumn": 3}, values={var: elem.A((3, 2, 4), [x[i] for i in range(3) for x in cells])})
                v = elem.lift(e(f[k]))
            except elem.Misfit as u:
                o.n("obligations")
                o.find("ratio:shape", "%s: %s" % (cfg, u), w.get(k))
                continue
            except elem.Unread as u:
                o.unk("%s: %s" % (cfg, u))
                continue
            a = {nu} if isinstance(nu, int) else set(nu)
            b = set(de or (1, 2, 3))
            for x, y in zip(cells, v.d):
                o.n("obligations")
                n, d = sum(z in a for z in x), sum(z in b for z in x)
                same = isinstance(y, float) and y != y if d == 0 else y is not None and abs(y - n / d) < 1e-9
                if not same:
                    o.find("ratio:value", "%s: subcolumns of class %s give %s, not %s" % (
                        cfg, list(x), y, "undefined" if d == 0 else "%d/%d" % (n, d)), w.get(k))
                    break


def once(s, o, c, m, k, fr, liq, w):
    """a class alone: all of it is liquid, or none of it"""
    nu, de = mul_all(fr[0]), mul_all(fr[1])
    for h in c.all_classes:
        gone = {}
        for t in tm.nodes([nu, de]):
            if t.op in ("in", "stale") and cls_of(s, c, t) - {h}:
                gone[t] = ZERO
        a, b = [unshape(bare(tm.subst(x, gone))) for x in (nu, de)]
        o.n("obligations")
        if h in liq and a is not b:
            if zero(a) or zero(b) or a.op not in ("add", "mul", "in") and b.op not in ("add", "mul", "in"):
                o.unk("%s %s with %s alone: %s / %s" % (m, k, h, tm.show(a, 4), tm.show(b, 4)))
            else:
                o.find("ratio:share:%s" % k, "%s: with only %s present %s is %s / %s, not 1" % (
                    m, h, k, tm.show(a, 4), tm.show(b, 4)), w.get(k))


def mul_all(ts):
    return tm.mul(*ts)


def zero(t):
    return t.op == "c" and t.args[0] == 0


def bare(t):
    """sums over nothing but zeros are zero"""
    def f(x):
        if x.op == "fill":
            return bare(x.args[0])
        if x.op in ("nansum", "sum") and zero(bare(x.args[0])):
            return ZERO
        if x.op == "add":
            return tm.add(*[bare(y) for y in x.args])
        if x.op == "mul":
            return tm.mul(*[bare(y) for y in x.args])
        if x.op in ("nansum", "sum"):
            return tm.mk(x.op, bare(x.args[0]), *x.args[1:])
        if x.op in ("where", "phi"):
            return tm.where(x.args[0], bare(x.args[1]), bare(x.args[2]))
    return tm.transform(t, f)


def cls_of(s, c, t):
    out = set()
    inv = {}
    for d in ("q_names_stratiform", "q_names_convective"):
        r = s.pyval(s.field(c.m, d)) or {}
        for a, b in r.items():
            inv.setdefault(b, set()).add(a)
    for l in tm.vdeps(t):
        if l.op in ("in", "stale"):
            out |= set(classes_of_leaf(l, c.all_classes)) or inv.get(l.args[0], set())
    return out


# -- the whole driver -------------------------------------------------------------------------------------------

def t_driver(s, o, m, inst):
    c = setup(s, m, inst)
    simulate(c, **LOGICS["rad"])
    cut(c)
    c.events = []
    kw = dict(LOGICS["rad"])
    if not is_radar(inst):
        kw["ext_OD"] = opt("ext_OD")
    simulate(c, skip_subcol_gen=True, do_classify=True, **kw)
    f = {k: v for k, v in outputs(c).items() if v is not mk("in", k)}
    w = writes(c)
    nm = getattr(s.field(c.i, "instrument_str"), "val", None)
    if is_radar(inst):
        exp = ["phase_mask_%s_sounding_all_hyd" % nm]
        if c.conv:
            exp += ["%s_phase_mask_%s_sounding" % (x, nm) for x in ("conv", "strat")]
    else:
        exp = ["phase_mask_%s_all_hyd" % nm, "COSP_phase_mask_all_hyd", "strat_COSP_phase_mask"]
        if c.conv:
            exp += ["%s_phase_mask_%s" % (x, nm) for x in ("conv", "strat")] + ["conv_COSP_phase_mask"]
    for k in exp:
        o.n("obligations")
        if k not in f:
            o.find("driver:%s" % k, "%s, %s: make_simulated_data(do_classify=True) does not produce %s" % (m, inst, k))
            continue
        lg = legend_of(s, c, k)
        codes = {x.args[0] for x in codes_of(f[k]) if x.op == "c" and num(x.args[0])}
        o.n("obligations")
        if lg is not None and any(v != 0 and (v != int(v) or not 1 <= v <= len(lg)) for v in codes):
            o.find("code:driver:%s" % k, "%s: %s takes codes %s, its legend has %d" % (m, k, sorted(codes), len(lg)),
                   w.get(k))


def codes_of(t, memo=None):
    """terms a mask can take its value from"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("where", "phi"):
            st += list(x.args[1:])
        elif x.op in SHAPE or x.op == "fill":
            st.append(x.args[0])
        else:
            out.append(x)
    return out


def main(tier):
    return base.main("C18", tasks(tier), fn,
                     "Decision table of every classification mask: its value-flow term is folded in each state of the "
                     "signals (above/below/undefined for each threshold, every region of the lidar threshold curves, "
                     "temperature range, reflective layers crossed) and the code compared with the legend entry the "
                     "definition gives; plus which signal each threshold is compared with, reachability of each "
                     "entry, numerator and denominator of the phase ratios.",
                     ["equality of a signal with its threshold is not distinguished",
                      "comparisons that the states do not settle leave the mask undecided"], tier=tier)
