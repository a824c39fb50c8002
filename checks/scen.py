"""Scenarios: how the checks drive the analysed entry points."""
from engine import terms as tm
from engine.drive import *  # noqa
from engine import drive as D

# models whose documented use is a full simulation
SIM_MODELS = ["ModelE", "E3SMv1", "E3SMv1_rain", "E3SMv1_1ice", "E3SMv3", "E3SMv3_rain", "E3SMv3_hybrid",
              "E3SMv3_hybrid2", "CESM2", "WRF_morrison", "WRF_morrison_gr", "WRF_morrison_gr2", "WRF_nuwrf",
              "WRF_nssl", "DHARMA", "DHARMA_pir", "TestConvection", "TestAllStratiform"]
CORE_MODELS = ["ModelE", "E3SMv1", "E3SMv3", "CESM2", "WRF_nssl", "WRF_morrison_gr", "DHARMA"]
RAD = dict(use_rad_logic=True)
MICRO = dict(use_rad_logic=False)
EMPIR = dict(use_empiric_calc=True)
LOGICS = {"rad": RAD, "micro": MICRO, "empirical": EMPIR}
MAIN = ("emc2.simulator.main", "make_simulated_data")
RM = "emc2.simulator.radar_moments"
LM = "emc2.simulator.lidar_moments"
SC = "emc2.simulator.subcolumn"
CL = "emc2.simulator.classification"
AT = "emc2.simulator.attenuation"


class Cell:
    """one configuration under analysis"""
    pass


def setup(s, mname, inst, conv=None, nsub=None, od=None, classes=None, spatial=False, mdl=None):
    fresh(s)
    cell = Cell()
    cell.s = s
    cell.name, cell.iname = mname, inst
    s.spatial = spatial
    cell.i = instrument(s, inst, od_from_sfc=od) if inst else None
    cell.m = model(s, mname, process_conv=conv, **(mdl or {}))
    if mname in WRF_RE:
        add_re(s, cell.m)
    s.nsub_one = nsub == 1
    cell.nsub = K(1) if nsub == 1 else Num(N_SUB, "scalar")
    cell.classes = classes or pylist(s, s.field(cell.m, "hyd_types"))
    cell.all_classes = pylist(s, s.field(cell.m, "hyd_types"))
    cell.conv = getattr(s.field(cell.m, "process_conv"), "val", None)
    cell.events = []
    cell.discards = []
    return cell


WRF_RE = ("WRF_morrison", "WRF_morrison_gr", "WRF_morrison_gr2", "WRF_nuwrf")


def add_re(s, m):
    """supplies the effective radii this definition names (the reader does not load them) so the rest of the
    simulator can be analysed; their absence is judged by C19/C10"""
    dsr = s.ds_of(m)
    for d in ("strat_re_fields", "conv_re_fields"):
        dd = s.node(s.field(m, d).addr)
        it = {}
        for k in dd.items:
            nm = "%s[%s]" % (d, k)
            add_input(s, m, nm, (s.field(m, "time_dim").val, s.field(m, "height_dim").val))
            it[k] = K(nm)
        s.set_field(m, d, Ref(s.new(Dct(it))))


def add_input(s, m, nm, dims=None, op="in"):
    dsr = s.ds_of(m)
    n = s.node(dsr.addr)
    at = s.new(Dct({}, (), ("attr", nm)))
    t = mk(op, nm)
    vs = dict(n.vars)
    vs[nm] = s.new(DA(s.new(Buf(t, "in:" + nm)), (), at, nm, dims))
    s.put(dsr.addr, n.but(vars=vs))
    s.inputs = frozenset(s.inputs | {nm})
    if dims is not None:
        s.leaf_shapes[t] = tuple(s.term(s.dim_size(None, K(x), None)) for x in dims)


def pylist(s, v):
    r = s.pyval(v)
    return list(r) if isinstance(r, (list, tuple)) else []


def call(cell, dotted, fn, args, kw):
    r = run(cell.s, dotted, fn, args, kw)
    cell.events += r.events
    cell.discards += r.discards
    if r.raised is not None:
        raise AbsRaise(*r.raised)
    return r


def simulate(cell, **kw):
    k = dict(kw)
    if cell.classes != cell.all_classes or kw.get("explicit_classes"):
        k["hyd_types"] = list(cell.classes)
    k.pop("explicit_classes", None)
    return call(cell, MAIN[0], MAIN[1], [cell.m, cell.i, cell.nsub], k)


def outputs(cell):
    tt = cell.s.terms_of(cell.m)
    return {k: v for k, v in tt.items() if k not in cell.s.inputs}


def cut(cell, names=None, op="in", keep=("subcolumn",)):
    """replaces the values of fields already written by named leaves"""
    s = cell.s
    dsr = s.ds_of(cell.m)
    n = s.node(dsr.addr)
    vs = dict(n.vars)
    for k, a in n.vars.items():
        if k in s.inputs or k in keep or names is not None and k not in names:
            continue
        d = s.node(a)
        t0 = s.view(d.buf, d.path)
        t = mk(op, k)
        if t0 is not t:
            sh = s.shape(t0)
            if sh is not None:
                s.leaf_shapes[t] = sh
        vs[k] = s.new(DA(s.new(Buf(t, "%s:%s" % (op, k))), (), d.attrs, d.name, d.dims))
    s.put(dsr.addr, n.but(vars=vs))


def writes(cell):
    """last store site of every field"""
    out = {}
    for e in cell.events:
        if e.kind == "dsset":
            out[e.data.get("name")] = e
    return out


def site(cell, name):
    """where a field is computed: last direct store, else None"""
    return writes(cell).get(name)


def is_radar(name):
    return name in RADARS


def supported(mname, logic):
    return True


def leaf_classes(t, classes, ops=("in", "par", "stale")):
    """class labels occurring in the leaves a term depends on -> set"""
    out = set()
    for l in tm.deps(t):
        if l.op in ops:
            out |= set(classes_of_leaf(l, classes))
    return out


def _noshape(t):
    if t.op == "dim":
        return mk("dim", "*")
    if t.op == "fill":
        return mk("fill", t.args[0])
    if t.op == "idx" and t.args[0].op == "dim":
        return mk("dim", "*")
    return None


def unshape(t):
    """forgets array extents (all fields of one stage have the same)"""
    return tm.renumber(tm.transform(t, _noshape))


def has_unknown(t):
    return any(x.op == "unk" for x in tm.deps(t))


def classes_of_leaf(l, classes):
    nm = l.args[-1] if l.args else None
    if not isinstance(nm, str):
        return ()
    if "[" in nm:
        c = nm[nm.index("[") + 1:-1]
        return (c,) if c in classes else ()
    r = []
    parts = nm.replace(".", "_").split("_")
    for c in classes:
        if c in parts:
            r.append(c)
    return tuple(r)


def staged(s, mname, inst, logic="rad", conv=None, cutnames=None, setup_kw=None, **kw):
    """generator stage, its fields cut to leaves, then the simulator stage; (cell, stage-1 fields, stage-2 fields)"""
    c = setup(s, mname, inst, conv=conv, **(setup_kw or {}))
    k = dict(LOGICS[logic], **kw)
    k2 = {a: b for a, b in k.items() if a not in ("do_classify",)}
    simulate(c, subcol_gen_only=True, **k2)
    sub = outputs(c)
    cut(c)
    c.sub_writes = writes(c)
    c.events = []
    simulate(c, skip_subcol_gen=True, **k)
    o = outputs(c)
    return c, sub, {a: b for a, b in o.items() if b is not mk("in", a)}


def kind_of(inst):
    return "radar" if is_radar(inst) else "lidar"


def leafnames(t, ops=("in", "stale")):
    return {l.args[0] for l in tm.deps(t) if l.op in ops and isinstance(l.args[0], str)}


def has_func(s, dotted, fn):
    try:
        return s.get(dotted, fn) is not None
    except Exception:
        return False
