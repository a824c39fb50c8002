"""C14: saving, reloading and clearing subcolumn output cover every simulator output."""
from . import base
from .scen import *  # noqa
from engine import absence

COSP = (CL, "lidar_emulate_cosp_phase")
RATIO = (CL, "calculate_phase_ratio")


def tasks(tier):
    ms = SIM_MODELS if tier != "quick" else ["ModelE", "E3SMv1", "E3SMv3", "CESM2", "WRF_nssl", "DHARMA"]
    out = []
    for m in ms:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "CALIOP", "RL"):
            for l in ("rad", "micro") if tier != "quick" or m == "ModelE" else ("rad",):
                out.append(("sim", m, i, l))
    for m in SIM_MODELS:
        out.append(("inputs", m))
    return out


def method(c, name, *a, **kw):
    s = c.s
    s.events = []
    r = s.call(s.getattr(c.m, name), list(a), kw)
    ev, s.events = s.events, []
    return r, ev


def produced(c, mname, inst, lg):
    """runs the generator, the simulator, and the documented post-processing; name -> (dims, writer)"""
    s = c.s
    simulate(c, do_classify=inst in ("KAZR", "NEXRAD", "HSRL"), **LOGICS[lg])
    masks = [k for k in outputs(c) if "phase_mask" in k]
    if inst == "HSRL":
        call(c, COSP[0], COSP[1], [c.i, c.m], dict(output_ATB=True))
        masks += [k for k in outputs(c) if "phase_mask" in k and k not in masks]
    pr = set()
    before = set(outputs(c))
    for k in masks[:2]:
        for kw in (dict(mask_class=1), dict(mask_class=1, mass_pr=True, mpr_subcolmod=True)):
            try:
                call(c, RATIO[0], RATIO[1], [c.m, K(k)], kw)
            except AbsRaise as e:
                c.ratio_fail = str(e)
    pr = set(outputs(c)) - before
    dn = s.dsnode(c.m)
    out = {}
    for k in outputs(c):
        d = s.node(dn.vars[k]).dims
        if d is not None and "subcolumn" in d and len(d) > 1:
            out[k] = "subcolumn"
        elif k in pr:
            out[k] = "phase ratio"
    return out


def unmodelled(ev):
    return [e for e in ev if e.kind in ("unknown_method", "dsset_dyn", "store_unknown", "missing_attr")]


def fn(s, task, o):
    if task[0] == "inputs":
        return inputs(s, task[1], o)
    _, mname, inst, lg = task
    c = setup(s, mname, inst)
    base_ds = s.ds_of(c.m)
    base_vars = dict(s.node(base_ds.addr).vars)
    want = produced(c, mname, inst, lg)
    full = s.terms_of(c.m)
    full_ds = s.ds_of(c.m)
    full_node = s.node(full_ds.addr)
    cfg = "%s %s %s" % (mname, inst, lg)
    w = writes(c)
    # save
    s.files = {}
    f = Num(mk("par", "file_name"), "str")
    _, ev = method(c, "subcolumns_to_netcdf", f)
    sv = [e for e in ev if e.kind == "to_netcdf"]
    bad = unmodelled(ev)
    if len(sv) != 1 or bad:
        o.unk("%s: save not followed (%d writes, %s)" % (cfg, len(sv), [e.kind for e in bad][:3]))
        return
    saved = sv[0].data["ds"]
    sn = s.node(saved)
    o.n("subcolumn_fields", len(want))
    for k in sorted(want):
        o.n("obligations")
        if k not in sn.vars:
            if sn.auto is None:
                o.find("save:" + gen(c, k), "%s: %s (written by %s) is not saved by subcolumns_to_netcdf" % (
                    cfg, k, w[k].func if k in w else "?"), sv[0])
            continue
        d = s.node(sn.vars[k])
        t = s.view(d.buf, d.path)
        if t is not full[k]:
            o.find("save-value:" + gen(c, k), "%s: %s is saved with another value" % (cfg, k), sv[0])
    if s.ds_of(c.m).addr != full_ds.addr or set(s.terms_of(c.m)) != set(full):
        o.find("save-changes-model", "%s: saving changes the model dataset" % cfg, sv[0])
    if len(o.samples) < 1:
        o.samples.append("%s: %d fields saved of %d" % (cfg, len(set(sn.vars) & set(want)), len(want)))
    # load into the same model without its output
    nd = Ref(s.new(full_node.but(vars=dict(base_vars))))
    s.set_field(c.m, "ds", nd)
    old = s.terms_of(c.m)
    _, ev = method(c, "load_subcolumns_from_netcdf", f)
    bad = unmodelled(ev)
    now = s.terms_of(c.m)
    ld = [e for e in ev if e.kind == "openfile"]
    if bad or not ld:
        o.unk("%s: load not followed" % cfg)
    else:
        for k in sorted(set(want) & set(sn.vars)):
            o.n("obligations")
            if k not in now:
                o.find("load:" + gen(c, k), "%s: %s is in the file and not restored" % (cfg, k), ld[0])
            elif now[k] is not full[k] and not has_unknown(now[k]):
                o.find("load-value:" + gen(c, k), "%s: %s is restored with another value" % (cfg, k), ld[0])
        for k in sorted(old):
            o.n("obligations")
            if k not in now:
                o.find("load-loses-input", "%s: %s is gone after loading subcolumns" % (cfg, k), ld[0])
            elif now[k] is not old[k] and not has_unknown(now[k]):
                o.find("load-changes-input", "%s: %s has another value after loading subcolumns" % (cfg, k), ld[0])
    # clear
    for ct in ("conv", "strat"):
        s.set_field(c.m, "ds", Ref(s.new(full_node.but())))
        _, ev = method(c, "remove_subcol_fields", K(ct))
        if unmodelled(ev):
            o.unk("%s: remove_subcol_fields(%s) not followed" % (cfg, ct))
            continue
        now = s.terms_of(c.m)
        at = site_of(s, "remove_subcol_fields")
        for k in sorted(want):
            o.n("obligations")
            lab = ct in k.split("_")
            if lab and k in now:
                o.find("clear:" + gen(c, k), "%s: remove_subcol_fields(%r) leaves %s in the model" % (cfg, ct, k), at)
            elif not lab and k not in now:
                o.find("clear-other:" + gen(c, k), "%s: remove_subcol_fields(%r) removes %s" % (cfg, ct, k), at)
        for k in sorted(base_vars):
            o.n("obligations")
            if k not in now:
                o.find("clear-input", "%s: remove_subcol_fields(%r) removes model input %s" % (cfg, ct, k), at)
    # finalise
    for named in (False, True):
        c = setup(s, mname, inst)
        want = produced(c, mname, inst, lg)
        finalised(c, o, cfg, want, sorted(k for k in want if "sub_col" not in k)[:1] if named else [])


def finalised(c, o, cfg, want, more):
    """zeros of the simulated subcolumn fields, and of the fields named, become NaN; all else stays"""
    s = c.s
    at = site_of(s, "finalize_subcol_fields")
    full = s.terms_of(c.m)
    _, ev = method(c, "finalize_subcol_fields", **(dict(more_fieldnames=s.lst(
        [("item", K(x)) for x in more])) if more else {}))
    if unmodelled(ev):
        o.unk("%s: finalize_subcol_fields not followed" % cfg)
        return
    now = s.terms_of(c.m)
    why = " (fields named: %s)" % more if more else ""
    for k, t in sorted(full.items()):
        o.n("obligations")
        u = now.get(k)
        gone = "sub_col" in k or any(x in k for x in more)
        if u is None:
            o.find("final-loses:" + gen(c, k), "%s: finalising removes %s%s" % (cfg, k, why), at)
        elif u is t and gone and k in want and absence.Ev({})(t) != absence.NAN:
            o.find("final-skips:" + gen(c, k), "%s: finalising leaves the zeros of %s%s" % (cfg, k, why), at)
        elif u is not t and not gone and not has_unknown(u):
            o.find("final-changes:" + gen(c, k), "%s: finalising changes %s%s" % (cfg, k, why), at)
        elif u is not t and gone and k in want:
            z = absence.Ev({t: frozenset([0.0])})(u)
            if z is not absence.TOP and z != absence.NAN:
                o.find("final-zero:" + gen(c, k), "%s: finalising turns 0 of %s into %s%s" % (cfg, k, sorted(z), why), at)
            for x in (5.0, 0.5, -0.5):
                v = absence.Ev({t: frozenset([x])})(u)
                if v is not absence.TOP and v != frozenset([x]):
                    o.find("final-value:" + gen(c, k), "%s: finalising turns %s of %s into %s%s" % (
                        cfg, x, k, sorted(v, key=str), why), at)


def inputs(s, mname, o):
    """with the real field names: clearing leaves every input in place"""
    fresh(s)
    try:
        m = model(s, mname, generic=False)
    except AbsRaise as e:
        o.unk("%s: %s" % (mname, e))
        return
    names = set(model_names(s, m)) if True else ()
    for k in names:
        if k not in s.terms_of(m):
            add_input(s, m, k)
    before = s.terms_of(m)
    n0 = s.node(s.ds_of(m).addr)

    class C:
        pass
    c = C()
    c.s, c.m = s, m
    for ct in ("conv", "strat"):
        s.set_field(m, "ds", Ref(s.new(n0.but())))
        _, ev = method(c, "remove_subcol_fields", K(ct))
        if unmodelled(ev):
            o.unk("%s: remove_subcol_fields(%s) not followed" % (mname, ct))
            continue
        now = s.terms_of(m)
        for k in sorted(before):
            o.n("obligations")
            if k not in now:
                o.find("clear-input:%s" % k, "%s: remove_subcol_fields(%r) removes model input %s" % (mname, ct, k),
                       site_of(s, "remove_subcol_fields"))


def site_of(s, name):
    f = s.get("emc2.core.model", "Model")
    try:
        f = s.getattr(f, name)
        return ("emc2/core/model.py", f.node.lineno, name)
    except Exception:
        return ("emc2/core/model.py", 0, name)


def gen(c, k):
    """field name with the class and cloud type left out"""
    p = ["<class>" if x in c.all_classes else x for x in k.split("_")]
    return "_".join(p).replace("_" + c.iname, "_<instrument>")


def main(tier):
    return base.main(
        "C14", tasks, fn, tier=tier,
        explanation=("The generator, simulator, classification and phase-ratio steps are interpreted abstractly; every "
                     "field they leave with a subcolumn dimension (or that a phase-ratio step adds) is required to be "
                     "among the variables that reach Dataset.to_netcdf with its own value term, to come back under the "
                     "same name and value term when the file is opened and merged, and to be dropped by "
                     "remove_subcol_fields of its cloud type, which may drop nothing else."),
        assumptions=["netCDF encoding of values and attributes is that of xarray",
                     "the loaded file is the one saved by the same model configuration"])
