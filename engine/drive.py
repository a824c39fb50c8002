"""Builds abstract models and instruments and runs simulator entry points on them."""
import copy as _copy

from . import terms as tm
from .terms import c, mk
from .values import *  # noqa
from .interp import Interp, Repo, AbsRaise, AnalysisError, Event  # noqa

MODULES = ["emc2", "emc2.core", "emc2.core.model", "emc2.core.instrument", "emc2.core.instruments",
           "emc2.simulator", "emc2.simulator.main", "emc2.simulator.subcolumn", "emc2.simulator.radar_moments",
           "emc2.simulator.lidar_moments", "emc2.simulator.attenuation", "emc2.simulator.psd",
           "emc2.simulator.classification", "emc2.io", "emc2.scattering", "emc2.scattering.mie_scattering",
           "emc2.scattering.ref_index", "emc2.statistics_LLNL", "emc2.plotting"]

# attributes of a model: class -> name of a dataset field
NAME_DICTS = ("N_field", "q_names_convective", "q_names_stratiform", "conv_frac_names", "strat_frac_names",
              "conv_frac_names_for_rad", "strat_frac_names_for_rad", "conv_re_fields", "strat_re_fields",
              "variable_density", "mu_field", "lambda_field", "qp_field", "q_names")
NAME_ATTRS = ("T_field", "q_field", "p_field", "z_field", "strat_relvar_name", "lat_name", "lon_name")
PARAM_DICTS = ("Rho_hyd", "fluffy", "lidar_ratio", "LDR_per_hyd", "vel_param_a", "vel_param_b",
               "Vd_rhoa_scaling_ref", "asp_ratio_func")

MODELS = {
    "ModelE": ("ModelE", {}),
    "E3SMv1": ("E3SMv1", {}),
    "E3SMv1_rain": ("E3SMv1", {"include_rain_in_rt": True}),
    "E3SMv1_1ice": ("E3SMv1", {"single_ice_class": True}),
    "E3SMv3": ("E3SMv3", {"instrument": "KAZR"}),
    "E3SMv3_rain": ("E3SMv3", {"include_rain_in_rt": True, "instrument": "KAZR"}),
    "E3SMv3_hybrid": ("E3SMv3", {"instrument": "KAZR", "use_hybrid_scat": True}),
    "E3SMv3_hybrid2": ("E3SMv3", {"instrument": "KAZR", "use_hybrid_scat": 2}),
    "E3SMv3_lut": ("E3SMv3", {}),
    "CESM2": ("CESM2", {}),
    "WRF_morrison": ("WRF", {"mcphys_scheme": "morrison"}),
    "WRF_morrison_gr": ("WRF", {"mcphys_scheme": "morrison", "include_gr_class": True}),
    "WRF_morrison_gr2": ("WRF", {"mcphys_scheme": "morrison", "include_gr_class": True, "gr_class_is_hail": False}),
    "WRF_3ice": ("WRF", {"mcphys_scheme": "3ice"}),
    "WRF_nuwrf": ("WRF", {"mcphys_scheme": "morrison", "NUWRF": True}),
    "WRF_nssl": ("WRF", {"mcphys_scheme": "nssl"}),
    "DHARMA": ("DHARMA", {}),
    "DHARMA_pir": ("DHARMA", {"single_pi_class": False}),
    "TestModel": ("TestModel", {}),
    "TestConvection": ("TestConvection", {}),
    "TestAllStratiform": ("TestAllStratiform", {}),
    "TestHalfAndHalf": ("TestHalfAndHalf", {}),
}
INSTRUMENTS = {
    "CSAPR": {}, "XSACR": {}, "KAZR": {"site": "sgp"}, "WACR": {"site": "sgp"}, "MWACR": {"site": "sgp"},
    "BASTA": {"site": "sgp"}, "RL": {}, "HSRL": {}, "MPL": {}, "CEIL": {}, "Ten64nm": {}, "HSRL1064": {},
    "NEXRAD": {}, "CALIOP": {},
}
RADARS = ("CSAPR", "XSACR", "KAZR", "WACR", "MWACR", "BASTA", "NEXRAD")
N_SUB = mk("dim", "ds", "subcolumn")


class Sim(Interp):
    """interpreter with the shape knowledge of one configuration"""

    def __init__(self, repo):
        Interp.__init__(self, repo)
        self.layout = None         # known dimensions and sizes (layout.Layout)
        self.spatial = False       # lat/lon dimensions present in the host model output
        self.nsub_one = False      # a single subcolumn
        self.input_src = ("in",)
        self.discards = []
        self.file_vars = None      # restricts the variables of opened files (None: any)
        self.facts = {}            # condition term -> truth
        self.leaf_shapes = {}
        self.keyviews = {}
        self.ds_dims = ("time", "height")

    # -------------------------------------------------------- shapes
    def ds_dims_hook(self, recv, name):
        n = self.node(recv.addr) if isinstance(recv, Ref) else None
        if isinstance(n, DS) and self.layout is not None:
            return name in self.layout.dims(n)
        if isinstance(n, DS):
            if name == "subcolumn":
                return "subcolumn" in n.vars
            if name in ("lat", "lon", "x", "y", "south_north", "west_east"):
                return self.spatial
            if name.endswith("_tmp") or name == "time_lat_lon":
                return name in n.vars or name in n.coords
            return True
        if isinstance(n, DA) and n.dims is not None:
            return name in n.dims
        return None

    def ds_coords_hook(self, recv, name):
        n = self.node(recv.addr) if isinstance(recv, Ref) else None
        if isinstance(n, DS) and self.layout is not None:
            return name in n.vars and self.layout.is_coord(n, name)
        if isinstance(n, DS):
            if name in n.vars and name.endswith("_tmp") or name in n.coords:
                return True
            if name in ("level",) or name.endswith("_tmp"):
                return False
            if n.auto is not None:
                return True
        return None

    def ds_dim_size(self, recv, name):
        if name == "subcolumn":
            return K(1) if self.nsub_one else Num(N_SUB, "scalar")
        return None

    def leaf_shape(self, t):
        return self.leaf_shapes.get(t)

    def dims_list(self, recv):
        n = self.node(recv.addr) if isinstance(recv, Ref) else None
        if isinstance(n, DS) and self.layout is not None:
            return self.layout.dims(n)
        if isinstance(n, DS):
            out = list(self.ds_dims)
            if "subcolumn" in n.vars:
                out.append("subcolumn")
            return tuple(out)
        return self.ds_dims

    def known(self, t):
        if t.op == "eq":
            a, b = t.args
            if a.op == "par":
                a, b = b, a
            if b.op == "par" and a.op == "c" and isinstance(a.args[0], str):
                return False
            if a is b and a.op in ("dim", "par", "opt"):
                return True
        r = self.facts.get(t)
        if r is not None:
            return r
        if t.op in ("eq", "lt", "le") and N_SUB in t.args and not self.nsub_one:
            a, b = t.args
            o = b if a is N_SUB else a
            if o.op == "c" and isinstance(o.args[0], (int, float)):
                v = o.args[0]
                if t.op == "eq" and v <= 1:
                    return False
                if t.op == "lt" and a is N_SUB and v <= 2:
                    return False
                if t.op == "lt" and b is N_SUB and v <= 1:
                    return True
                if t.op == "le" and a is N_SUB and v <= 1:
                    return False
                if t.op == "le" and b is N_SUB and v <= 2:
                    return True
        return Interp.known(self, t)

    def input_auto(self, name):
        return self.file_vars is None or name in self.file_vars

    def on_discard(self, s, v):
        self.discards.append((self.frames[-1].mod.path, s, v, self.frames[-1].func))

    # -------------------------------------------------------- access
    def get(self, dotted, name):
        return self.attr_of_module(self.module(dotted), name)

    def field(self, obj, name):
        return self.node(obj.addr).fields.get(name)

    def set_field(self, obj, name, v):
        n = self.node(obj.addr)
        self.put(obj.addr, Obj(n.cls, {**n.fields, name: v}))

    def ds_of(self, model):
        return self.field(model, "ds")

    def dsnode(self, model):
        return self.node(self.ds_of(model).addr)

    def var_term(self, ds, name):
        n = self.node(ds.addr)
        d = self.node(n.vars[name])
        return self.view(d.buf, d.path)

    def terms_of(self, model):
        ds = self.ds_of(model)
        return {k: self.var_term(ds, k) for k in self.node(ds.addr).vars}

    def attrs_of(self, model, name):
        n = self.node(self.node(self.dsnode(model).vars[name]).attrs)
        out = {}
        for k, v in n.items.items():
            out[k] = v.val if isinstance(v, K) else v
        return out, n.auto is not None or bool(n.extra)

    def pyval(self, v, depth=0):
        """deep readable/comparable form of a value"""
        if isinstance(v, K):
            return v.val
        if isinstance(v, Tup):
            return tuple(self.pyval(x, depth + 1) for x in v.items)
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Dct):
                return {k: self.pyval(x, depth + 1) for k, x in n.items.items()}
            if isinstance(n, Lst) and n.concrete():
                return [self.pyval(x, depth + 1) for x in n.items()]
            if isinstance(n, DS):
                return ("DS", v.addr)
            if isinstance(n, Obj):
                return ("Obj", n.cls.name)
        if isinstance(v, (Num, Arr)) or isinstance(v, Ref):
            return self.term(v)
        return v

    def config(self, obj):
        return {k: self.pyval(v) for k, v in self.node(obj.addr).fields.items() if k != "ds"}


def new_sim(root="/repo", repo=None):
    s = Sim(repo or Repo(root))
    for m in MODULES:
        s.module(m)
    s.module_events = s.events
    s.events = []
    s.discards = []
    s.base_heap = s.heap
    return s


def fresh(s):
    """starts a run from the loaded modules"""
    s.heap = Layer(s.base_heap)
    s.events = []
    s.discards = []
    s.pc = ()
    s.frames = []
    s.muted = 0
    s.loop_depth = 0
    s.facts = {}
    s.leaf_shapes = {}
    s.keyviews = {}
    s.shape_memo = {}
    s.ds_dims = ("time", "height")
    s.watch = set()
    s.hooks = {}
    s.spatial = False
    s.layout = None
    s.nsub_one = False
    s.file_vars = None
    s.file_dims = None
    s.input_src = ("in",)
    s.files = None


def py(s, v):
    """Python value -> abstract value"""
    if isinstance(v, V):
        return v
    if isinstance(v, (list,)):
        return Ref(s.new(Lst([("item", py(s, x)) for x in v])))
    if isinstance(v, tuple):
        return Tup([py(s, x) for x in v])
    if isinstance(v, dict):
        return Ref(s.new(Dct({k: py(s, x) for k, x in v.items()})))
    return K(v)


def par(name, kind="scalar"):
    return Num(mk("par", name), kind)


def opt(name, kind="scalar"):
    return Num(mk("opt", name), kind)


def raw_instrument(s, name, **over):
    s.input_src = ("lut",)
    kw = dict(INSTRUMENTS[name], **over)
    i = s.call(s.get("emc2.core.instruments", name), [], {k: py(s, v) for k, v in kw.items()})
    s.input_src = ("in",)
    s.files = None
    return i


TABLES = ("mie_table", "scat_table", "bulk_table")


def instrument(s, name, od_from_sfc=None, generic=True, **over):
    i = raw_instrument(s, name, **over)
    if not generic:
        return i
    for f, v in list(s.node(i.addr).fields.items()):
        if isinstance(v, K) and isinstance(v.val, (float, int, complex)) and not isinstance(v.val, bool):
            s.set_field(i, f, par("inst." + f))
        elif isinstance(v, Num) and f not in TABLES:
            s.set_field(i, f, Num(mk("par", "inst." + f), v.kind))
    seen = {}
    for tb in TABLES:
        d = s.node(s.field(i, tb).addr)
        for key, ref in d.items.items():
            relabel_table(s, ref, tb, key, seen)
    if od_from_sfc is not None:
        s.set_field(i, "OD_from_sfc", K(od_from_sfc))
    return i


def relabel_table(s, ref, tb, key, seen):
    if not isinstance(ref, Ref) or ref.addr in seen:
        return
    seen[ref.addr] = key
    n = s.node(ref.addr)
    if not isinstance(n, DS):
        return
    src = ("lut", tb + "." + str(key))
    vs = {}
    for k, a in n.vars.items():
        d = s.node(a)
        t = mk(*(src + (k,)))
        vs[k] = s.new(DA(s.new(Buf(t, ":".join(src + (k,)))), (), d.attrs, k, d.dims))
    s.put(ref.addr, n.but(vars=vs, src=src, coords={}))


def raw_model(s, name, args=None, **over):
    clsname, kw = MODELS[name] if name in MODELS else (name, {})
    kw = dict(kw, **over)
    kw = {k: v for k, v in kw.items() if v != "__drop__"}
    if isinstance(kw.get("instrument"), str):
        kw["instrument"] = raw_instrument(s, kw["instrument"])
        # tables get generic names before the model reads them
        seen = {}
        for tb in TABLES:
            for key, ref in s.node(s.field(kw["instrument"], tb).addr).items.items():
                relabel_table(s, ref, tb, key, seen)
    s.input_src = ("in",)
    s.files = None
    a = [] if clsname.startswith("Test") else [K("model_output.nc")]
    return s.call(s.get("emc2.core.model", clsname), a if args is None else args, {k: py(s, v) for k, v in kw.items()})


def model_names(s, m):
    """dataset fields the model definition refers to"""
    out = {}
    f = s.node(m.addr).fields
    for d in NAME_DICTS:
        v = f.get(d)
        if isinstance(v, Ref) and isinstance(s.node(v.addr), Dct):
            for k, x in s.node(v.addr).items.items():
                if isinstance(x, K) and isinstance(x.val, str):
                    out.setdefault(x.val, []).append((d, k))
    for d in NAME_ATTRS:
        v = f.get(d)
        if isinstance(v, K) and isinstance(v.val, str) and v.val:
            out.setdefault(v.val, []).append((d, None))
    return out


def model(s, name, generic=True, process_conv=None, classes=None, **over):
    """a model of a shipped class.

    generic: every field the definition names becomes a distinct symbolic input, and every class parameter a symbol,
    so results hold for every file and every parameter value (the definition keeps its structure: classes, schemes,
    which entries are None, which fields are absent)."""
    m = raw_model(s, name, **over)
    s.events = []
    s.discards = []
    if process_conv is not None:
        s.set_field(m, "process_conv", K(process_conv))
    dsr = s.ds_of(m)
    names = model_names(s, m)
    f = s.node(m.addr).fields
    tdim, hdim = s.field(m, "time_dim"), s.field(m, "height_dim")
    dims2 = (tdim.val, hdim.val)
    s.ds_dims = dims2
    scal = set()
    if generic:
        # one name per (attribute, class)
        n = s.node(dsr.addr)
        vs = {}
        for d in NAME_DICTS:
            v = f.get(d)
            if not (isinstance(v, Ref) and isinstance(s.node(v.addr), Dct)):
                continue
            it = {}
            for k, x in s.node(v.addr).items.items():
                if isinstance(x, K) and isinstance(x.val, str):
                    nm = "%s[%s]" % (d, k)
                    if s.ds_has(n, x.val):
                        old = n.vars.get(x.val)
                        od = s.node(old) if old is not None else None
                        at = od.attrs if od is not None else s.new(Dct({}, (), ("attr", nm)))
                        vs[nm] = s.new(DA(s.new(Buf(mk("in", nm), "in:" + nm)), (), at, nm, dims2))
                    it[k] = K(nm)
                else:
                    it[k] = x
            s.set_field(m, d, Ref(s.new(Dct(it))))
        named = {x for x, us in names.items() if any(u[0] in NAME_DICTS for u in us)}
        attrs = {x for x, us in names.items() if any(u[1] is None for u in us)}
        for k, a in n.vars.items():
            if k in named and k not in attrs:
                continue
            d = s.node(a)
            at = d.attrs
            if k in attrs or k == "rho_a" or k in ("Fr", "rho_r", "qi_norm", "in_cld_Ni", "N0_norm_ice"):
                d = d.but(dims=dims2)
            vs[k] = s.new(DA(s.new(Buf(mk("in", k), "in:" + k)), (), at, k, d.dims))
        for k in attrs:
            if k not in vs and s.ds_has(n, k):
                at = s.new(Dct({}, (), ("attr", k)))
                vs[k] = s.new(DA(s.new(Buf(mk("in", k), "in:" + k)), (), at, k, dims2))
        for k in dims2:
            if k not in vs:
                at = s.new(Dct({}, (), ("attr", k)))
                vs[k] = s.new(DA(s.new(Buf(mk("in", k), "in:" + k)), (), at, k, (k,)))
        kept = frozenset(vs)
        s.put(dsr.addr, n.but(vars=vs, auto=None, dropped=frozenset()))
        s.inputs = kept
        for k, a in vs.items():
            d = s.node(a)
            if d.dims is not None:
                s.leaf_shapes[mk("in", k)] = tuple(s.term(s.dim_size(None, K(x), None)) if isinstance(x, str) else
                                                   mk("dim", "ds", "?") for x in d.dims)
        for d in PARAM_DICTS:
            v = f.get(d)
            if isinstance(v, Ref) and isinstance(s.node(v.addr), Dct):
                it = {}
                for k, x in s.node(v.addr).items.items():
                    if isinstance(x, K) and (x.val is None or isinstance(x.val, str)) or isinstance(x, (FuncV, BoundV)):
                        it[k] = x
                    else:
                        kd = s.kind_of(x)
                        it[k] = Num(mk("par", "%s[%s]" % (d, k)), "q" if kd == "q" else "scalar")
                s.set_field(m, d, Ref(s.new(Dct(it))))
    else:
        for k in names:
            n = s.node(dsr.addr)
            if k not in n.vars and s.ds_has(n, k):
                s.ds_auto(dsr.addr, k)
        n = s.node(dsr.addr)
        s.put(dsr.addr, n.but(auto=None))
        s.inputs = frozenset(n.vars)
    if classes is not None:
        s.set_field(m, "hyd_types", py(s, list(classes)))
    s.events = []
    s.discards = []
    return m


class Result:
    """outcome of one simulator call"""
    __slots__ = ("raised", "value", "events", "discards", "model")


def run(s, dotted, fn, args, kwargs):
    r = Result()
    r.raised = r.value = None
    try:
        r.value = s.call(s.get(dotted, fn), [py(s, a) for a in args], {k: py(s, v) for k, v in kwargs.items()})
    except AbsRaise as e:
        r.raised = (e.exc, e.msg)
    r.events, s.events = s.events, []
    r.discards, s.discards = s.discards, []
    return r
