"""C21: unsuitable instruments and missing prerequisites are rejected before anything is written."""
from . import base
from .scen import *  # noqa
from engine.interp import AbsRaise

# public steps bound to one instrument kind: (module, function, kind, extra arguments)
STEPS = [
    (AT, "calc_radar_Ze_min", "radar", ()), (AT, "calc_radar_atm_attenuation", "radar", ()),
    (RM, "calc_radar_empirical", "radar", (False, "p", "t", "z", "atm")),
    (RM, "calc_radar_bulk", "radar", (False, "p", "z", "atm")),
    (RM, "calc_radar_micro", "radar", ("z", "atm")), (RM, "calc_radar_moments", "radar", (False,)),
    (RM, "calc_radar_moments", "radar", (True,)),
    (LM, "calc_lidar_empirical", "lidar", (False, "p", "t", "z")),
    (LM, "calc_lidar_bulk", "lidar", (False, "p", "z")), (LM, "calc_lidar_micro", "lidar", ("z",)),
    (LM, "calc_lidar_moments", "lidar", (False,)), (LM, "calc_lidar_moments", "lidar", (True,)),
    (CL, "radar_classify_phase", "radar", ()), (CL, "lidar_classify_phase", "lidar", ()),
    (CL, "lidar_emulate_cosp_phase", "lidar", ()),
]
QUICK = ["ModelE", "E3SMv1", "E3SMv3", "CESM2", "WRF_nssl"]


def tasks(tier):
    ms = QUICK if tier == "quick" else SIM_MODELS
    out = []
    for m in ms:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "WACR", "HSRL", "RL", "CALIOP", "CEIL"):
            out.append(("kind", m, i))
            out.append(("unknown", m, i))
            for lg in LOGICS:
                out.append(("prereq", m, i, lg))
                out.append(("ok", m, i, lg))
        out.append(("gen", m))
    return out


def fn(s, task, o):
    globals()["t_" + task[0]](s, task, o)


def state(c):
    """what a rejected call must leave alone"""
    s = c.s
    ds = s.ds_of(c.m)
    n = s.node(ds.addr)
    out = {}
    for k in n.vars:
        d = s.node(n.vars[k])
        try:
            at = s.attrs_of(c.m, k)[0]
        except Exception:
            at = {}
        out[("field", k)] = (s.var_term(ds, k), d.dims, tuple(sorted((a, str(v)) for a, v in at.items())))
    for nm, obj in (("model", c.m), ("instrument", c.i)):
        if obj is None:
            continue
        for k, v in s.config(obj).items():
            out[(nm, k)] = repr(v)
    return out


def values(c, names):
    s = c.s
    out = []
    for x in names:
        if isinstance(x, bool):
            out.append(K(x))
        elif x == "atm":
            out.append(Arr(s.new(Buf(mk("in", "atm_ext"), "atm_ext"))))
        else:
            f = {"p": "p_field", "t": "T_field", "z": "z_field"}[x]
            out.append(s.getitem(s.ds_of(c.m), s.field(c.m, f)))
    return out


def attempt(c, thunk):
    """runs a step; (exception or None, state differences, explicit conditional rejections, events)"""
    s = c.s
    a = state(c)
    s.events = []
    exc = None
    try:
        thunk()
    except AbsRaise as e:
        exc = (e.exc, e.msg)
    ev, s.events = s.events, []
    b = state(c)
    diff = sorted("%s %s" % k for k in set(a) | set(b) if a.get(k) != b.get(k))
    maybe = [e for e in ev if e.kind == "raise" and e.pc]
    return exc, diff, maybe, ev


def expect(c, o, what, key, thunk, at, needs_error=True):
    o.n("obligations")
    exc, diff, maybe, ev = attempt(c, thunk)
    if exc is None:
        if maybe:
            o.unk("%s: rejected under a condition" % what)
        elif needs_error:
            o.find("accepted:" + key, "%s is not rejected%s" % (
                what, " (changes %s)" % ", ".join(diff[:4]) if diff else ""), at)
        return exc, ev
    if diff:
        r = [e for e in ev if e.kind == "raise"]
        o.find("late:" + key, "%s is rejected (%s) only after changing %s" % (what, exc[0], ", ".join(diff[:5])),
               r[-1] if r else at)
    elif len(o.samples) < 2:
        o.samples.append("%s: %s, nothing changed" % (what, exc[0]))
    return exc, ev


def where(s, mod, f):
    v = s.get(mod, f)
    import os
    return (os.path.relpath(v.mod.path, base.REPO) if hasattr(v, "mod") else mod, v.node.lineno if hasattr(v, "node") else 0, f)


def do(c, mod, f, args, kw):
    s = c.s
    return lambda: s.call(s.get(mod, f), args, {k: py(s, v) for k, v in kw.items()})


def t_kind(s, task, o):
    _, m, i = task
    # a model that already holds the output of an instrument of the other kind
    c = setup(s, m, i)
    mine, c.i = c.i, instrument(s, "HSRL" if is_radar(i) else "KAZR")
    simulate(c, **MICRO)
    c.i = mine
    simulate(c, skip_subcol_gen=True, **MICRO)
    wrong = [x for x in STEPS if x[2] != kind_of(i)]
    for mod, f, kind, extra in wrong:
        if not has_func(s, mod, f):
            continue
        expect(c, o, "%s with %s (%s), %s" % (f, i, kind_of(i), m), "kind:%s" % f,
               do(c, mod, f, [c.i, c.m] + values(c, extra), {}), where(s, mod, f))


def t_unknown(s, task, o):
    _, m, i = task
    c = setup(s, m, i)
    for f in ("instrument_class",):
        s.set_field(c.i, f, K("sodar"))
    for lg, kw in LOGICS.items():
        expect(c, o, "make_simulated_data with an instrument that is neither radar nor lidar, %s, %s logic" % (m, lg),
               "driver:unknown", do(c, MAIN[0], MAIN[1], [c.m, c.i, c.nsub], kw), where(s, *MAIN))
    if i == "HSRL":
        for other in ("RL", "CEIL"):
            c = setup(s, m, other)
            expect(c, o, "make_simulated_data(do_classify=True) with %s, %s" % (other, m), "driver:classify",
                   do(c, MAIN[0], MAIN[1], [c.m, c.i, c.nsub], dict(do_classify=True)), where(s, *MAIN))


def t_prereq(s, task, o):
    """signal and classification steps on a model without what they read"""
    _, m, i, lg = task
    for mod, f, kind, extra in STEPS:
        if kind != kind_of(i) or not has_func(s, mod, f) or f in ("calc_radar_Ze_min", "calc_radar_atm_attenuation"):
            continue
        c = setup(s, m, i)
        kw = {} if "classify" in f or "cosp" in f else LOGICS[lg] if f.endswith("_moments") else {}
        expect(c, o, "%s%s on a model without subcolumns (%s, %s, %s logic)" % (f, extra[:1], m, i, lg),
               "no-subcolumns:%s" % f, do(c, mod, f, [c.i, c.m] + values(c, extra), kw), where(s, mod, f))
    for other in (True, False):
        f = "calc_%s_moments" % kind_of(i)
        mod = RM if kind_of(i) == "radar" else LM
        c = setup(s, m, i, conv=True)
        simulate(c, subcol_gen_only=True, **LOGICS[lg])
        drop(c, lambda k: ("conv" if other else "strat") in k.split("_") and "_q_" in k)
        expect(c, o, "%s(is_conv=%s) without %s mixing ratios in the subcolumns (%s, %s, %s logic)" % (
            f, other, "convective" if other else "stratiform", m, i, lg), "no-q:%s" % f,
            do(c, mod, f, [c.i, c.m, K(other)], LOGICS[lg]), where(s, mod, f))
        c = setup(s, m, i, conv=True)
        simulate(c, subcol_gen_only=True, **LOGICS[lg])
        drop(c, lambda k: ("conv" if other else "strat") in k.split("_"))
        expect(c, o, "%s(is_conv=%s) without any %s subcolumn field (%s, %s, %s logic)" % (
            f, other, "convective" if other else "stratiform", m, i, lg), "no-type:%s" % f,
            do(c, mod, f, [c.i, c.m, K(other)], LOGICS[lg]), where(s, mod, f))
    c = setup(s, m, i)
    simulate(c, subcol_gen_only=True, **LOGICS[lg])
    for mod, f, kind, extra in STEPS:
        if kind != kind_of(i) or "phase" not in f:
            continue
        expect(c, o, "%s before the %s calculation (%s, %s)" % (f, kind, m, i), "no-signals:%s" % f,
               do(c, mod, f, [c.i, c.m], {}), where(s, mod, f))
    post = [(RM, "calc_total_reflectivity", dict(detect_mask=True))] if kind == "radar" else [
        (LM, "calc_total_alpha_beta", {}), (LM, "calc_LDR_and_ext", {})]
    for mod, f, kw in post if kind_of(i) == kind else ():
        if has_func(s, mod, f):
            expect(c, o, "%s before the signal calculation (%s, %s)" % (f, m, i), "no-signals:%s" % f,
                   do(c, mod, f, [c.m], kw), where(s, mod, f))


def drop(c, pred):
    s = c.s
    ds = s.ds_of(c.m)
    n = s.node(ds.addr)
    s.put(ds.addr, n.but(vars={k: v for k, v in n.vars.items() if k in s.inputs or not pred(k)}))


def t_gen(s, task, o):
    """generator steps out of order or with another number of subcolumns"""
    m = task[1]
    N2 = Num(mk("dim", "ds", "other"), "scalar")
    for lg in ("rad", "micro"):
        kw = dict(use_rad_logic=lg == "rad")
        for h in pylist(s, s.field(setup(s, m, None).m, "hyd_types")):
            for cv in (True, False):
                c = setup(s, m, None)
                expect(c, o, "set_q_n(%s, is_conv=%s) on a model without subcolumns (%s)" % (h, cv, m), "gen:set_q_n",
                       do(c, SC, "set_q_n", [c.m, K(h)], dict(kw, is_conv=cv)), where(s, SC, "set_q_n"))
        for have in ("cl", "ci", None):
            c = setup(s, m, None, conv=True)
            if not {"cl", "ci"} <= set(c.all_classes):
                break
            for h in [have] if have else []:
                do(c, SC, "set_convective_sub_col_frac", [c.m, K(h)], dict(kw, N_columns=c.nsub))()
            expect(c, o, "set_stratiform_sub_col_frac with convective fractions of %s only (%s)" % (have, m),
                   "gen:set_stratiform", do(c, SC, "set_stratiform_sub_col_frac", [c.m], dict(kw, N_columns=c.nsub)),
                   where(s, SC, "set_stratiform_sub_col_frac"))
        for cv in (True, False):
            c = setup(s, m, None)
            expect(c, o, "set_precip_sub_col_frac(is_conv=%s) on a model without subcolumns (%s)" % (cv, m),
                   "gen:set_precip", do(c, SC, "set_precip_sub_col_frac", [c.m, K(cv)], kw),
                   where(s, SC, "set_precip_sub_col_frac"))
            c = setup(s, m, None)
            generated(c, kw)
            drop(c, lambda k: k in ("%s_frac_subcolumns_cl" % ("conv" if cv else "strat"),
                                    "%s_frac_subcolumns_ci" % ("conv" if cv else "strat")))
            expect(c, o, "set_precip_sub_col_frac(is_conv=%s) without the cloud fractions (%s)" % (cv, m),
                   "gen:set_precip", do(c, SC, "set_precip_sub_col_frac", [c.m, K(cv)], kw),
                   where(s, SC, "set_precip_sub_col_frac"))
        for f, args in (("set_convective_sub_col_frac", ("cl",)), ("set_precip_sub_col_frac", (False,))):
            c = setup(s, m, None)
            generated(c, kw)
            s.facts = {mk("eq", N_SUB, N2.term): False, mk("eq", N2.term, N_SUB): False}
            expect(c, o, "%s with another number of subcolumns than the model has (%s)" % (f, m), "gen:N:%s" % f,
                   do(c, SC, f, [c.m] + [K(a) for a in args], dict(kw, N_columns=N2)), where(s, SC, f))
    # documented order, suitable input
    for lg in ("rad", "micro"):
        kw = dict(use_rad_logic=lg == "rad")
        c = setup(s, m, None)
        o.n("obligations")
        exc, _, maybe, ev = attempt(c, lambda: generated(c, kw, precip=True))
        suitable(o, ev, exc, "generator steps in the documented order, %s, %s" % (m, kw))


def generated(c, kw, precip=False):
    for h in ("cl", "ci"):
        if h in c.all_classes:
            do(c, SC, "set_convective_sub_col_frac", [c.m, K(h)], dict(kw, N_columns=c.nsub))()
    do(c, SC, "set_stratiform_sub_col_frac", [c.m], dict(kw, N_columns=c.nsub))()
    if precip:
        pt = [h for h in c.all_classes if h not in ("cl", "ci")]
        for cv in (True, False):
            do(c, SC, "set_precip_sub_col_frac", [c.m, K(cv)], dict(kw, N_columns=c.nsub, precip_types=pt))()


def suitable(o, ev, exc, what):
    for e in ev:
        if e.kind == "raise" and e.data.get("explicit") and not e.pc:
            o.find("rejected:%s" % e.data["exc"], "%s stops with %s (%s)" % (what, e.data["exc"], e.data["msg"]), e)
            return


def t_ok(s, task, o):
    """suitable input is not rejected"""
    _, m, i, lg = task
    for kw in (dict(), dict(do_classify=True) if i in ("KAZR", "NEXRAD", "WACR", "HSRL") else None,
               dict(finalize_fields=True), dict(unstack_dims=True), dict(skip_subcol_gen=True)):
        if kw is None:
            continue
        c = setup(s, m, i)
        o.n("obligations")
        if kw.get("skip_subcol_gen"):
            simulate(c, subcol_gen_only=True, **LOGICS[lg])
        exc, _, maybe, ev = attempt(c, do(c, MAIN[0], MAIN[1], [c.m, c.i, c.nsub], dict(LOGICS[lg], **kw)))
        suitable(o, ev, exc, "make_simulated_data(%s, %s, %s)" % (m, i, dict(LOGICS[lg], **kw)))
    c = setup(s, m, i)
    simulate(c, **LOGICS[lg])
    for mod, f, kind, extra in STEPS:
        if kind != kind_of(i) or not has_func(s, mod, f):
            continue
        if "phase" in f and i not in ("KAZR", "HSRL"):
            continue
        if f.endswith("_moments") and extra == (True,) and not c.conv:
            continue
        kw = LOGICS[lg] if f.endswith("_moments") else {}
        if extra and not f.endswith("_moments"):
            continue
        o.n("obligations")
        exc, _, maybe, ev = attempt(c, do(c, mod, f, [c.i, c.m] + values(c, extra), kw))
        suitable(o, ev, exc, "%s%s on a simulated %s, %s" % (f, extra, m, i))


def main(tier):
    return base.main(
        "C21", tasks, fn, tier=tier,
        explanation=("Every public step is interpreted abstractly with an instrument of the wrong or an unknown kind, "
                     "and on models from which its documented prerequisite fields are missing: the interpretation must "
                     "end in an exception, and the abstract state (dataset fields, their terms, dimensions and "
                     "attributes, model and instrument attributes) at the raise must equal the state before the call. "
                     "Suitable configurations must reach no explicit raise."),
        assumptions=["a rejection under a condition the analysis cannot decide leaves the step undecided",
                     "crashes on suitable input are judged by C19"])
