"""C15: every public option has its documented effect on the path it governs."""
import re

from engine import dead

from . import base, lint
from .scen import *  # noqa

A, B = 2.71828, 1.61803     # two values of a numeric option


def tasks(tier):
    out = [("dead",)]
    models = CORE_MODELS if tier == "quick" else SIM_MODELS
    for m in models:
        for lg in LOGICS:
            out += [("radar", m, lg), ("lidar", m, lg)]
    for m in ("ModelE", "E3SMv1", "WRF_nssl") if tier == "quick" else SIM_MODELS:
        out += [("classify", m), ("steps", m), ("gen", m), ("psd", m), ("flow", m)]
    return out


def signature(s, mod, f):
    try:
        v = s.get(mod, f)
        n = getattr(v, "node", None)
        a = n.args
        return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({"**"} if a.kwarg else set())
    except Exception:
        return None


def differ(s, o, cfg, what, fa, fb, pats, w, need=None):
    """every field the option governs must differ between two values of the option"""
    for p in pats:
        ks = [k for k in sorted(set(fa) | set(fb)) if re.match(p + "$", k)]
        for k in ks:
            a, b = fa.get(k), fb.get(k)
            o.n("obligations")
            if a is None or b is None:
                continue
            if has_unknown(a) or has_unknown(b):
                if a is b:
                    o.unk("%s: %s" % (cfg, k))
                continue
            if a is b or unshape(a) is unshape(b):
                gen = re.sub(r"(^|_)(conv|strat)(_|$)", r"\1<cloud>\3", k)
                o.find("ineffective:%s:%s" % (what, gen), "%s: %s does not change with %s" % (cfg, k, what), w.get(k))


DEFAULTS = {"q_trunc_thresh": 1e-18, "ext_OD": 4., "cloud_SR_thresh": 5., "undef_SR_thresh": 30.}


def carries(s, o, cfg, what, fields, pats, w, forbid=()):
    """the option's leaf must reach every governed field, the defaults it replaces must not"""
    dv = DEFAULTS.get(what.split(":")[-1])
    lf = mk("opt", what.split(":")[-1])
    for p in pats:
        for k in sorted(fields):
            if not re.match(p + "$", k):
                continue
            t = fields[k]
            d = tm.deps(t)
            o.n("obligations")
            gen = re.sub(r"(^|_)(conv|strat)(_|$)", r"\1<cloud>\3", k)
            if lf not in d:
                if has_unknown(t):
                    o.unk("%s: %s" % (cfg, k))
                else:
                    o.find("ignored:%s:%s" % (what, gen), "%s: %s does not depend on %s" % (cfg, k, what), w.get(k))
                continue
            if dv is not None and any(x.op in ("lt", "le") and any(
                    y.op == "c" and y.args[0] == dv for y in x.args) for x in tm.nodes([t])):
                o.find("default:%s:%s" % (what, gen), "%s: %s compares with the default %s although %s was given" % (
                    cfg, k, dv, what), w.get(k))
            bad = [x for x in d if x.op == "par" and x.args[0] in forbid]
            if bad:
                o.find("default:%s:%s" % (what, gen), "%s: %s uses %s although %s was given" % (
                    cfg, k, bad[0].args[0], what), w.get(k))


def stage2(s, m, inst, lg, setup_kw=None, **kw):
    c = setup(s, m, inst, **(setup_kw or {}))
    base_kw = LOGICS[lg]
    simulate(c, subcol_gen_only=True, **base_kw)
    cut(c)
    c.events = []
    simulate(c, skip_subcol_gen=True, **dict(base_kw, **kw))
    return c, {k: v for k, v in outputs(c).items() if v is not mk("in", k)}


def fn(s, task, o):
    globals()["t_" + task[0]](s, task, o)


def t_dead(s, task, o):
    r, n = dead.dead(list(lint.files(base.REPO)), base.REPO)
    o.n("obligations", n)
    o.n("documented_parameters", n)
    for f, p in r:
        q = (f.cls.name + "." if f.cls is not None else "") + f.node.name
        o.find("dead:%s:%s" % (q, p), "documented parameter %s of %s influences nothing" % (p, q),
               (f.path, f.node.lineno, q))


def t_radar(s, task, o):
    _, m, lg = task
    cfg = "%s, KAZR, %s logic" % (m, lg)
    c, f = stage2(s, m, "KAZR", lg, do_classify=True, ref_rng=opt("ref_rng"))
    w = writes(c)
    carries(s, o, cfg, "driver:ref_rng", f, ["Ze_min", "detect_mask", ".*phase_mask_.*"], w)
    c, f0 = stage2(s, m, "KAZR", lg, do_classify=True)
    c1, f1 = stage2(s, m, "KAZR", lg, do_classify=True, mask_height_rng=Tup((K(A), K(1000 * A))))
    c2, f2 = stage2(s, m, "KAZR", lg, do_classify=True, mask_height_rng=Tup((K(B), K(1000 * A))))
    c3, f3 = stage2(s, m, "KAZR", lg, do_classify=True, mask_height_rng=Tup((K(B), K(1000 * B))))
    for a, b in ((f0, f1), (f1, f2), (f2, f3)):
        differ(s, o, cfg, "driver:mask_height_rng", a, b, [".*phase_mask_.*"], w)
    c1, f1 = stage2(s, m, "KAZR", lg, do_classify=True, convert_zeros_to_nan=True)
    differ(s, o, cfg, "driver:convert_zeros_to_nan", f0, f1, [".*phase_mask_.*"], w)
    c1, f1 = stage2(s, m, "KAZR", lg, finalize_fields=True)
    c2, f2 = stage2(s, m, "KAZR", lg, finalize_fields=False)
    differ(s, o, cfg, "driver:finalize_fields", f1, f2, ["sub_col_Ze_tot.*"], w)
    if lg == "micro":
        psd_opts(s, o, m, "KAZR", cfg, ["sub_col_Ze_cl_strat", "sub_col_Vd_cl_strat"])
        c1, f1 = stage2(s, m, "KAZR", lg, calc_spectral_width=False)
        differ(s, o, cfg, "driver:calc_spectral_width", f0, f1, ["sub_col_sigma_d_.*_strat"], w)
        for k in sorted(f1):
            if re.match("sub_col_(Ze|Vd)_.*", k) and k in f0:
                o.n("obligations")
                if not has_unknown(f1[k]) and unshape(f1[k]) is not unshape(f0[k]):
                    o.find("excess:calc_spectral_width:%s" % k,
                           "%s: %s changes with calc_spectral_width" % (cfg, k), w.get(k))


def psd_opts(s, o, m, inst, cfg, pats):
    r = {}
    for k, kw in (("dt", dict(calc_dispersion=True)), ("df", dict(calc_dispersion=False)), ("none", {}),
                  ("b1", dict(calc_dispersion=True, dispersion_mu_bounds=Tup((K(A), K(15))))),
                  ("b2", dict(calc_dispersion=True, dispersion_mu_bounds=Tup((K(A), K(A + 9)))))):
        r[k] = stage2(s, m, inst, "micro", **kw)
    w = writes(r["dt"][0])
    for what, a, b in (("calc_dispersion", "dt", "df"), ("dispersion_mu_bounds", "dt", "b1"),
                       ("dispersion_mu_bounds", "b1", "b2")):
        differ(s, o, cfg, "driver:" + what, r[a][1], r[b][1], pats, w)
    # documented default: the fixed definition for ModelE and DHARMA, the Martin et al. method elsewhere
    same = "df" if m.startswith(("ModelE", "DHARMA")) else "dt"
    if m not in CORE_MODELS:
        return
    for k in sorted(r["none"][1]):
        if any(re.match(p + "$", k) for p in pats):
            a, b = r["none"][1][k], r[same][1].get(k)
            o.n("obligations")
            if b is None or has_unknown(a) or has_unknown(b):
                continue
            if unshape(a) is not unshape(b):
                o.find("dispersion-default:%s" % k, "%s: %s does not use the documented default dispersion" % (cfg, k),
                       w.get(k))


def t_lidar(s, task, o):
    _, m, lg = task
    cfg = "%s, HSRL, %s logic" % (m, lg)
    c, f = stage2(s, m, "HSRL", lg, do_classify=True, eta=opt("eta"), ext_OD=opt("ext_OD"))
    w = writes(c)
    carries(s, o, cfg, "driver:eta", f, ["sub_col_beta_att_tot(_strat|_conv)?", ".*COSP_phase_mask.*"], w,
            ("inst.eta",))
    carries(s, o, cfg, "driver:ext_OD", f, ["ext_mask", "((strat|conv)_)?phase_mask_.*"], w, ("inst.ext_OD",))
    c, f = stage2(s, m, "HSRL", lg, do_classify=True)
    for what, pats in (("eta", ["sub_col_beta_att_tot(_strat|_conv)?", ".*COSP_phase_mask.*"]),
                       ("ext_OD", ["ext_mask", "((strat|conv)_)?phase_mask_.*"])):
        for k in sorted(f):
            if any(re.match(p + "$", k) for p in pats):
                o.n("obligations")
                if mk("par", "inst." + what) not in tm.deps(f[k]) and not has_unknown(f[k]):
                    o.find("instrument-default:%s:%s" % (what, k), "%s: %s does not use the instrument's %s" % (
                        cfg, k, what), w.get(k))
    c1, f1 = stage2(s, m, "HSRL", lg, do_classify=True, convert_zeros_to_nan=True)
    differ(s, o, cfg, "driver:convert_zeros_to_nan", f, f1, [".*phase_mask.*"], w)
    c1, f1 = stage2(s, m, "HSRL", lg, finalize_fields=True)
    c2, f2 = stage2(s, m, "HSRL", lg, finalize_fields=False)
    differ(s, o, cfg, "driver:finalize_fields", f1, f2, ["sub_col_(beta|alpha)_p_tot.*"], w)
    if lg == "micro":
        psd_opts(s, o, m, "HSRL", cfg, ["sub_col_(beta|alpha)_p_cl_strat"])


def direct(s, o, c, mod, f, args, kw):
    """fields written by one direct call, or None"""
    sig = signature(s, mod, f)
    if sig is None or any(k not in sig and "**" not in sig for k in kw):
        o.unk("%s%s has no %s" % (f, "" if sig else " not found", sorted(kw)))
        return None, {}
    r = run(s, mod, f, args, kw)
    if r.raised is not None:
        o.unk("%s raises %s" % (f, r.raised))
        return None, {}
    return {k: v for k, v in outputs(c).items() if v is not mk("in", k)}, \
        {e.data.get("name"): e for e in r.events if e.kind == "dsset"}


def prepared(s, m, inst, lg="rad", **kw):
    """a configuration with all fields simulated and cut to leaves"""
    c = setup(s, m, inst)
    simulate(c, **dict(LOGICS[lg], **kw))
    cut(c)
    return c


def t_steps(s, task, o):
    _, m = task
    cfg = m + ", direct call"

    def leaf(inst, mod, f, what, pats, extra=None, forbid=(), inst_arg=True, od=None):
        c = prepared(s, m, inst)
        a = ([c.i] if inst_arg else []) + [c.m]
        fl, w = direct(s, o, c, mod, f, a, dict(extra or {}, **{what: opt(what)}))
        if fl is not None:
            carries(s, o, cfg, "%s:%s" % (f, what), fl, pats, w, forbid)

    def pair(inst, mod, f, what, va, vb, pats, extra=None, inst_arg=True):
        fs = []
        for v in (va, vb):
            c = prepared(s, m, inst)
            v = v(s, c) if callable(v) else v
            fl, w = direct(s, o, c, mod, f, ([c.i] if inst_arg else []) + [c.m], dict(
                {k: x(s, c) if callable(x) else x for k, x in (extra or {}).items()}, **{what: v}))
            if fl is None:
                return
            fs.append(fl)
        differ(s, o, cfg, "%s:%s" % (f, what), fs[0], fs[1], pats, w)

    leaf("KAZR", AT, "calc_radar_Ze_min", "ref_rng", ["Ze_min"])
    leaf("HSRL", LM, "calc_total_alpha_beta", "eta", ["sub_col_beta_att_tot"], inst_arg=False)
    leaf("HSRL", LM, "calc_LDR_and_ext", "ext_OD", ["ext_mask"], inst_arg=False)
    leaf("HSRL", AT, "calc_theory_beta_m", "Lambda", ["sigma_180_vol", "tau", "u_atm", "beta", "sigma", "n_s"],
         inst_arg=False)

    def ldr(base_):
        def f(s_, c):
            return Ref(s_.new(Dct({h: opt("%s_%s" % (base_, h)) for h in c.all_classes})))
        return f
    pair("HSRL", LM, "calc_LDR_and_ext", "LDR_per_hyd", ldr("a"), ldr("b"), ["sub_col_LDR_.*"], inst_arg=False)
    c = prepared(s, m, "HSRL")
    fl, w = direct(s, o, c, LM, "calc_LDR_and_ext", [c.m], dict(LDR_per_hyd=ldr("ldr")(s, c)))
    if fl is not None:
        for k in ("sub_col_LDR_strat", "sub_col_LDR_conv", "sub_col_LDR_tot"):
            if k in fl and not (k.endswith("conv") and not c.conv):
                d = tm.deps(fl[k])
                miss = [h for h in c.all_classes if mk("opt", "ldr_" + h) not in d]
                own = [x for x in d if x.op == "par" and "LDR_per_hyd" in str(x.args[0])]
                o.n("obligations")
                if (miss or own) and not has_unknown(fl[k]):
                    o.find("ignored:calc_LDR_and_ext:LDR_per_hyd:%s" % k,
                           "%s: %s ignores the given depolarization of %s" % (cfg, k, miss or own), w.get(k))
    pair("KAZR", RM, "calc_total_reflectivity", "detect_mask", K(False), K(True), ["detect_mask"], inst_arg=False)
    for v in (True, False):
        c = prepared(s, m, "KAZR")
        r = run(s, RM, "calc_total_reflectivity", [c.m], dict(detect_mask=v))
        hit = [e for e in r.events if e.kind == "dsset" and e.data.get("name") == "detect_mask"]
        o.n("obligations")
        if r.raised is None and bool(hit) is not v and not [e for e in r.events if e.kind == "dsset_dyn"]:
            o.find("flag:calc_total_reflectivity:detect_mask", "detect_mask is %swritten with detect_mask=%s" % (
                "" if hit else "not ", v), hit[0] if hit else None)
    for lg in LOGICS:
        for inst, mod, f, pats in (("HSRL", LM, "calc_lidar_moments", ["sub_col_beta_att_tot_(strat|conv)"]),):
            for cv in (False, True):
                c = setup(s, m, inst)
                if cv and not c.conv:
                    continue
                simulate(c, subcol_gen_only=True, **LOGICS[lg])
                cut(c)
                fl, w = direct(s, o, c, mod, f, [c.i, c.m, K(cv)], dict(LOGICS[lg], eta=opt("eta")))
                if fl is not None:
                    carries(s, o, "%s, %s" % (cfg, lg), "%s:eta" % f, {k: v for k, v in fl.items() if k in w}, pats, w,
                            ("inst.eta",))


def t_classify(s, task, o):
    _, m = task
    cfg = m + ", direct call"

    def go(inst, f, kws, pats, same=()):
        fs = []
        for kw in kws:
            c = prepared(s, m, inst)
            kw = {k: v(s, c) if callable(v) else v for k, v in kw.items()}
            fl, w = direct(s, o, c, CL, f, [c.i, c.m], kw)
            if fl is None:
                return
            fs.append((fl, w))
        for a, b in zip(fs, fs[1:]):
            what = sorted(k for k in set(kws[0]) | set(kws[1]))
            differ(s, o, cfg, "%s:%s" % (f, ",".join(what)), a[0], b[0], pats, a[1])

    def thresh(ldr2, bp, ind):
        def f(s_, c):
            return [{"class": "Liquid", "class_ind": 1, "LDR": [0., 0.1, 0.2], "beta_p": [1e-5, 2e-5, 4e-5]},
                    {"class": "Ice", "class_ind": ind, "LDR": [0., ldr2, 0.3], "beta_p": [2e-5, bp, 5e-5]}]
        return f
    masks = ["((strat|conv)_)?phase_mask_.*"]
    cosp = ["(strat|conv)_COSP_phase_mask", "COSP_phase_mask_all_hyd"]
    for a, b in ((thresh(0.1, 3e-5, 2), thresh(0.15, 3e-5, 2)), (thresh(0.1, 3e-5, 2), thresh(0.1, 3.5e-5, 2))):
        go("HSRL", "lidar_classify_phase", [dict(beta_p_phase_thresh=a), dict(beta_p_phase_thresh=b)], masks)
    go("HSRL", "lidar_classify_phase", [dict(beta_p_phase_thresh=thresh(0.1, 3e-5, 2)), {}], masks)
    go("HSRL", "lidar_classify_phase", [dict(remove_sub_detect=K(True)), dict(remove_sub_detect=K(False))], masks)
    go("HSRL", "lidar_classify_phase", [dict(convert_zeros_to_nan=K(True)), dict(convert_zeros_to_nan=K(False))],
       masks)
    go("KAZR", "radar_classify_phase", [dict(convert_zeros_to_nan=K(True)), dict(convert_zeros_to_nan=K(False))],
       masks)
    go("KAZR", "radar_classify_phase", [dict(mask_height_rng=Tup((K(A), K(B + 100)))), dict(
        mask_height_rng=Tup((K(B), K(B + 100)))), dict(mask_height_rng=Tup((K(B), K(A + 100))))], masks)
    f = "lidar_emulate_cosp_phase"
    for what in ("eta", "cloud_SR_thresh", "undef_SR_thresh"):
        c = prepared(s, m, "HSRL")
        fl, w = direct(s, o, c, CL, f, [c.i, c.m], {what: opt(what)})
        if fl is not None:
            carries(s, o, cfg, "%s:%s" % (f, what), fl, cosp, w, ("inst." + what,))
    go("HSRL", f, [dict(convert_zeros_to_nan=K(True)), dict(convert_zeros_to_nan=K(False))], cosp)
    go("HSRL", f, [dict(OD_from_sfc=K(True)), dict(OD_from_sfc=K(False))], cosp)
    go("HSRL", f, [dict(inc_precip_hyd_atb=K(True)), dict(inc_precip_hyd_atb=K(False))], cosp)

    def nums(*x):
        return lambda s_, c: list(x)
    go("HSRL", f, [dict(phase_disc_curve=nums(1., 2., 3.)), dict(phase_disc_curve=nums(1., 2., 4.))], cosp)
    for a, b in ((("liq", .5), ("liq", .6)), (("ice", .5), ("ice", .6))):
        def coeff(x):
            def g(s_, c):
                return {k: [x[1] if k == x[0] else .1, 0.] for k in ("liq", "ice")}
            return g
        go("HSRL", f, [dict(atb_cross_coeff=coeff(a)), dict(atb_cross_coeff=coeff(b))], cosp)
    # requested classes: all of them, and only them, reach the masks
    c = prepared(s, m, "HSRL")
    for cls in (list(c.all_classes), list(c.all_classes)[:2], list(c.all_classes)[1:]):
        c = prepared(s, m, "HSRL")
        c2f, w = direct(s, o, c, CL, f, [c.i, c.m], dict(hyd_types=list(cls)))
        if c2f is None:
            continue
        for k in ("strat_COSP_phase_mask", "COSP_phase_mask_all_hyd"):
            if k not in c2f or has_unknown(c2f[k]):
                continue
            names = leafnames(c2f[k])
            got = {h for h in c.all_classes if any(re.match("sub_col_(beta_p|OD)_%s_" % h, n) for n in names)}
            o.n("obligations")
            if got != set(cls):
                o.find("classes:%s" % ("missing" if set(cls) - got else "extra"),
                       "%s: %s of %s with hyd_types=%s reads %s" % (cfg, k, f, cls, sorted(got)), w.get(k))
    for v in (True, False):
        c = prepared(s, m, "HSRL")
        r = run(s, CL, f, [c.i, c.m], dict(output_ATB=v))
        hit = [e for e in r.events if e.kind == "dsset" and "COSP_" in str(e.data.get("name"))
               and "mask" not in str(e.data.get("name"))]
        o.n("obligations")
        if r.raised is None and bool(hit) is not v and not [e for e in r.events if e.kind == "dsset_dyn"]:
            o.find("flag:%s:output_ATB" % f, "ATB fields are %swritten with output_ATB=%s" % ("" if hit else "not ", v),
                   hit[0] if hit else None)
    f = "calculate_phase_ratio"
    outs = {}
    for nm, kw in (("f1", dict(mask_class=K(1), mask_allhyd=K(2))), ("f2", dict(mask_class=K(2), mask_allhyd=K(2))),
                   ("f3", dict(mask_class=K(1), mask_allhyd=K(3))),
                   ("v2", dict(mask_class=K(1), mask_allhyd=K(2), variable=K("COSP_phase_mask_all_hyd"))),
                   ("mm", dict(mask_class=K(1), mass_pr=K(True))),
                   ("ms", dict(mask_class=K(1), mass_pr=K(True), mpr_subcolmod=K(True)))):
        c = prepared(s, m, "HSRL", do_classify=True)
        kw.setdefault("variable", K("phase_mask_HSRL_all_hyd"))
        fl, w = direct(s, o, c, CL, f, [c.m], kw)
        if fl is not None:
            outs[nm] = ({k: v for k, v in fl.items() if k in w}, w, c)
    for what, a, b in (("mask_class", "f1", "f2"), ("mask_allhyd", "f1", "f3")):
        if a in outs and b in outs:
            differ(s, o, cfg, "%s:%s" % (f, what), outs[a][0], outs[b][0], [".*_fpr"], outs[a][1])
    for nm, want in (("f1", "fpr"), ("mm", "mpr"), ("ms", "mpr")):
        if nm in outs:
            o.n("obligations")
            bad = [k for k in outs[nm][0] if want not in k]
            if bad or not outs[nm][0]:
                o.find("flag:%s:mass_pr" % f, "%s: %s writes %s" % (cfg, nm, bad or "nothing"))
    for nm in ("mm", "ms"):
        if nm not in outs:
            continue
        fl, w, c = outs[nm]
        for k, t in fl.items():
            if has_unknown(t):
                o.unk("%s: %s" % (cfg, k))
                continue
            names = leafnames(t)
            got = {h for h in c.all_classes if any(n.endswith("_subcolumns_" + h) or n.endswith("stratiform[%s]" % h)
                                                   for n in names)}
            o.n("obligations")
            if got != set(c.all_classes):
                o.find("classes:mass-ratio", "%s: %s reads classes %s of %s" % (cfg, k, sorted(got), c.all_classes),
                       w.get(k))
            sub = any("subcolumns" in n for n in names)
            if sub is not (nm == "ms"):
                o.find("flag:%s:mpr_subcolmod" % f, "%s: %s %s subcolumn mixing ratios" % (
                    cfg, k, "uses" if sub else "does not use"), w.get(k))


def t_gen(s, task, o):
    """subcolumn generator options, called step by step"""
    _, m = task
    cfg = m + ", direct call"

    def gen(order, **opts):
        c = setup(s, m, "KAZR")
        cl = c.all_classes
        pre = [h for h in cl if h not in ("cl", "ci")]
        st = []
        if c.conv:
            st += [("set_convective_sub_col_frac", [c.m, K(h)], dict(N_columns=c.nsub)) for h in cl]
        st += [("set_stratiform_sub_col_frac", [c.m], dict(N_columns=c.nsub))]
        for cv in (False, True) if c.conv else (False,):
            st += [("set_precip_sub_col_frac", [c.m], dict(is_conv=K(cv), precip_types=list(pre)))]
        for h in cl:
            for cv in (False, True) if c.conv else (False,):
                st += [("set_q_n", [c.m, K(h)], dict(is_conv=K(cv), qc_flag=K(h == "cl" and not cv)))]
        w = {}
        for f, a, kw in st:
            sig = signature(s, SC, f) or set()
            if not sig:
                return None, None, None
            r = run(s, SC, f, a, dict(kw, **{k: v for k, v in opts.items() if k in sig}))
            if r.raised is not None:
                o.unk("%s raises %s" % (f, r.raised))
                return None, None, None
            w.update({e.data.get("name"): e for e in r.events if e.kind == "dsset"})
        return c, outputs(c), w
    # truncation threshold
    for urr, pats in ((True, ["(strat|conv)_frac_subcolumns_.*", "(strat|conv)_q_subcolumns_.*"]),
                      (False, ["(strat|conv)_q_subcolumns_.*"])):
        c, f, w = gen(0, use_rad_logic=K(urr), q_trunc_thresh=opt("q_trunc_thresh"))
        if f is not None:
            carries(s, o, "%s, use_rad_logic=%s" % (cfg, urr), "generator:q_trunc_thresh", f, pats, w)
    # cloud fraction definitions
    for urr, own, other in ((True, "for_rad", "frac_names["), (False, "frac_names[", "for_rad")):
        c, f, w = gen(0, use_rad_logic=K(urr))
        if f is None:
            continue
        for k, t in sorted(f.items()):
            mm = re.match(r"(strat|conv)_(frac|q|n)_subcolumns_(\w+)$", k)
            if not mm or has_unknown(t):
                continue
            names = leafnames(t)
            o.n("obligations")
            if not any(own in n for n in names) or any(other in n for n in names):
                o.find("fraction:%s" % re.sub("_%s$" % mm[3], "_<class>", k),
                       "%s: %s with use_rad_logic=%s reads %s" % (
                           cfg, k, urr, sorted(n for n in names if "frac" in n)), w.get(k))
    # sub-grid variability of cloud water
    c, f1, w = gen(0, use_rad_logic=K(False), inv_rel_var=K(A))
    c, f2, w = gen(0, use_rad_logic=K(False), inv_rel_var=K(B))
    relvar = getattr(s.field(c.m, "strat_relvar_name"), "val", None) if c else None
    if f1 and f2 and not (relvar and relvar in s.inputs):
        differ(s, o, cfg, "set_q_n:inv_rel_var", f1, f2, ["strat_q_subcolumns_cl"], w)
    for urr, must in ((False, True), (True, False)):
        fs = []
        for q in (True, False):
            c = setup(s, m, "KAZR")
            simulate(c, subcol_gen_only=True, use_rad_logic=urr)
            cut(c)
            fl, w = direct(s, o, c, SC, "set_q_n", [c.m, K("cl")],
                           dict(is_conv=K(False), qc_flag=K(q), use_rad_logic=K(urr)))
            fs.append(fl)
        if None in fs:
            continue
        k = "strat_q_subcolumns_cl"
        a, b = (x.get(k) for x in fs)
        o.n("obligations")
        if a is None or b is None or has_unknown(a) or has_unknown(b):
            o.unk("%s set_q_n" % cfg)
        elif (unshape(a) is not unshape(b)) is not must:
            o.find("flag:set_q_n:qc_flag:%s" % urr, "%s: qc_flag %s with use_rad_logic=%s" % (
                cfg, "has no effect" if must else "has an effect", urr), w.get(k))
    # requested precipitation classes
    c = setup(s, m, "KAZR")
    pre = [h for h in c.all_classes if h not in ("cl", "ci")]
    for sub in {tuple(pre[:1]), tuple(pre[-1:])}:
        c = setup(s, m, "KAZR")
        r = run(s, SC, "set_stratiform_sub_col_frac", [c.m], dict(N_columns=c.nsub)) if not c.conv else None
        if r is None or r.raised is not None or not sub:
            continue
        r = run(s, SC, "set_precip_sub_col_frac", [c.m], dict(is_conv=K(False), precip_types=list(sub)))
        got = {e.data.get("name") for e in r.events if e.kind == "dsset"}
        o.n("obligations")
        if r.raised is None and not [e for e in r.events if e.kind == "dsset_dyn"]:
            want = {"strat_frac_subcolumns_" + h for h in sub}
            if {g for g in got if "frac_subcolumns" in str(g)} != want:
                o.find("classes:set_precip_sub_col_frac", "%s: precip_types=%s writes %s" % (cfg, list(sub), sorted(got)))
    # number of subcolumns
    for f, a, kw, k in (("set_stratiform_sub_col_frac", [], {}, "strat_frac_subcolumns_cl"),):
        c = setup(s, m, "KAZR", conv=False)
        c.m = model(s, m, process_conv=False)
        r = run(s, SC, f, [c.m] + a, dict(kw, N_columns=c.nsub))
        o.n("obligations")
        if r.raised is None:
            t = outputs(c).get(k)
            sh = s.shape(t) if t is not None else None
            if sh and sh[0] is not N_SUB and not has_unknown(t) and tm.deps(sh[0]) and N_SUB not in tm.nodes([sh[0]]):
                o.find("ignored:%s:N_columns" % f, "%s: %s has %s subcolumns" % (cfg, k, tm.show(sh[0], 3)))


def t_psd(s, task, o):
    _, m = task
    cfg = m + ", direct call"
    P = "emc2.simulator.psd"

    def go(h="cl", **kw):
        c = setup(s, m, "KAZR")
        simulate(c, subcol_gen_only=True, use_rad_logic=False)
        cut(c)
        fl, w = direct(s, o, c, P, "calc_mu_lambda", [c.m, K(h)], kw)
        return fl, w, c
    r = {k: go(**kw) for k, kw in (
        ("t", dict(calc_dispersion=K(True))), ("f", dict(calc_dispersion=K(False))), ("n", {}),
        ("b1", dict(calc_dispersion=K(True), dispersion_mu_bounds=Tup((K(A), K(15))))),
        ("b2", dict(calc_dispersion=K(True), dispersion_mu_bounds=Tup((K(2), K(A + 9))))))}
    if any(v[0] is None for v in r.values()):
        return
    w = r["t"][1]
    f3 = ["mu", "lambda", "N_0"]
    differ(s, o, cfg, "calc_mu_lambda:calc_dispersion", r["t"][0], r["f"][0], f3, w)
    differ(s, o, cfg, "calc_mu_lambda:dispersion_mu_bounds", r["t"][0], r["b1"][0], f3, w)
    differ(s, o, cfg, "calc_mu_lambda:dispersion_mu_bounds", r["t"][0], r["b2"][0], f3, w)
    same = "f" if m.startswith(("ModelE", "DHARMA")) else "t"
    for k in f3:
        a, b = r["n"][0].get(k), r[same][0].get(k)
        if m.startswith("Test") or a is None or b is None or has_unknown(a):
            continue
        o.n("obligations")
        if unshape(a) is not unshape(b):
            o.find("dispersion-default:%s" % k, "%s: %s does not use the documented default dispersion" % (cfg, k),
                   w.get(k))
    c = r["t"][2]
    for h in c.all_classes:
        for cv in (False, True) if c.conv else (False,):
            fl, w, c2 = go(h, is_conv=K(cv)) if not cv else (None, None, None)
            if fl is None or "N_0" not in fl or has_unknown(fl["N_0"]):
                continue
            names = {n for n in leafnames(fl["N_0"]) if "subcolumns" in n}
            o.n("obligations")
            bad = {n for n in names if not (n.startswith("conv" if cv else "strat") and n.endswith("_" + h))}
            if bad:
                o.find("ignored:calc_mu_lambda:hyd_type", "%s: N_0 of %s reads %s" % (cfg, h, sorted(bad)), w.get("N_0"))


STAGE1 = re.compile(r"(strat|conv)_(frac|q|n)_subcolumns_")
STAGE2 = re.compile(r"sub_col_|hyd_ext|atm_ext|ext_mask|Ze_min|detect_mask|sigma_180")
MASK = re.compile(r"(phase|COSP)_.*mask")


def t_flow(s, task, o):
    """stages the driver's flags switch on and off"""
    _, m = task
    for inst in ("KAZR", "HSRL"):
        for kw, kind, want in (
                (dict(subcol_gen_only=True), STAGE2, False), (dict(subcol_gen_only=True), STAGE1, True),
                (dict(subcol_gen_only=True, do_classify=True), MASK, False),
                (dict(do_classify=False), MASK, False), ({}, MASK, False), (dict(do_classify=True), MASK, True),
                (dict(do_classify=False), STAGE2, True), ({}, STAGE1, True)):
            c = setup(s, m, inst)
            simulate(c, **kw)
            flow(o, c, m, inst, kw, kind, want)
        c = setup(s, m, inst)
        simulate(c, subcol_gen_only=True)
        cut(c)
        c.events = []
        simulate(c, skip_subcol_gen=True)
        flow(o, c, m, inst, dict(skip_subcol_gen=True), STAGE1, False)
        flow(o, c, m, inst, dict(skip_subcol_gen=True), STAGE2, True)


def flow(o, c, m, inst, kw, kind, want):
    w = {k: e for k, e in writes(c).items() if isinstance(k, str) and kind.match(k) or kind is MASK and
         isinstance(k, str) and kind.search(k)}
    o.n("obligations")
    if any(e.kind == "dsset_dyn" for e in c.events):
        return
    if bool(w) is not want:
        nm = {STAGE1: "subcolumn fields", STAGE2: "simulated fields", MASK: "classification masks"}[kind]
        e = next(iter(w.values()), None)
        o.find("flow:%s:%s" % (",".join(sorted(kw)) or "default", nm), "%s, %s: %s %s with %s" % (
            m, inst, nm, "written (%s)" % sorted(w)[0] if w else "not written", kw or "default options"), e)


def main(tier):
    return base.main(
        "C15", tasks, fn, tier=tier,
        explanation=("Option tracking over the value-flow terms: an option is given as an opaque leaf (or as two "
                     "different constants) to make_simulated_data and to every public step function; the terms of all "
                     "fields it is documented to govern must contain the leaf and not the default it replaces (or "
                     "must differ between the two values), on every approach and in both cloud partitions; stage flags "
                     "must switch exactly their stage's writes. A call-graph fixpoint over the whole package reports "
                     "documented parameters of public functions that can influence nothing."),
        assumptions=["a parameter counts as influential as soon as any expression reads it",
                     "fields containing values the analysis does not model are undecided"])
