"""C24: creating a figure leaves the model, the instruments and the arrays it is given as they were."""
from . import base
from .scen import *  # noqa
from . import c18
from engine.values import *  # noqa
from engine.interp import AbsRaise

PL = "emc2.plotting.subcol_display"
ST = "emc2.statistics_LLNL.statistical_plots"
QUICK = [("ModelE", "KAZR"), ("ModelE", "HSRL"), ("CESM2", "KAZR"), ("E3SMv1", "HSRL"), ("DHARMA", "CALIOP"),
         ("WRF_nssl", "KAZR")]


def tasks(tier):
    ps = list(QUICK)
    if tier != "quick":
        ps = [(m, i) for m in SIM_MODELS for i in ("KAZR", "WACR", "HSRL", "CALIOP")]
    out = []
    for m, i in ps:
        out += [("make", m, i), ("shared", m, i), ("series", m, i), ("profile", m, i), ("instrument", m, i),
                ("mask", m, i), ("regrid", m, i), ("stats", m, i)]
    return out


def fn(s, task, o):
    globals()["t_" + task[0]](s, o, *task[1:])


# -- what a figure must leave alone -----------------------------------------------------------------------------

def snap(s, v, path, out, seen, depth=0):
    """path -> content of everything reachable from a value"""
    if depth > 8:
        return
    if isinstance(v, Arr):
        out[path] = s.view(v.buf, v.path)
        return
    if isinstance(v, Ref):
        if v.addr in seen:
            return
        seen = seen | {v.addr}
        n = s.node(v.addr)
        if isinstance(n, Obj):
            for k, x in n.fields.items():
                out[path + (k, "<id>")] = x.addr if isinstance(x, Ref) else None
                snap(s, x, path + (k,), out, seen, depth + 1)
        elif isinstance(n, Dct):
            out[path + ("<keys>",)] = tuple(map(str, n.items))
            for k, x in n.items.items():
                snap(s, x, path + (k,), out, seen, depth + 1)
        elif isinstance(n, Lst):
            out[path] = s.lst_term(n)
        elif isinstance(n, DS):
            out[path + ("<fields>",)] = tuple(n.vars)
            for k, a in n.vars.items():
                snap(s, Ref(a), path + (k,), out, seen, depth + 1)
        elif isinstance(n, DA):
            out[path] = s.view(n.buf, n.path)
            out[path + ("<dims>",)] = n.dims
            if n.attrs is not None:
                snap(s, Ref(n.attrs), path + ("<attrs>",), out, seen, depth + 1)
        return
    if isinstance(v, (FuncV, BoundV, ClassV)):
        return
    try:
        out[path] = s.term(v)
    except Exception:
        pass


class Scene:
    def __init__(self, s, m, i, o):
        self.s, self.o = s, o
        s.spatial = False
        self.c = c18.prepared(s, m, i)
        call(self.c, "emc2.simulator.classification",
             ("radar" if is_radar(i) else "lidar") + "_classify_phase", [self.c.i, self.c.m], {})
        cut(self.c)
        self.cfg = "%s, %s" % (m, i)
        s.facts = dict(s.facts)
        self.give_ds()
        self.args = {}
        self.disp = None

    def give_ds(self):
        """the instrument's own observations"""
        s = self.s
        d = s.xr_open_dataset([K("observations.nc")], {}, None)
        for v in ("time", "range", "backscatter", "reflectivity", "Ze_obs"):
            s.ds_auto(d.addr, v)
        s.set_field(self.c.i, "ds", d)
        self.c.events = []
        s.events = []

    def arr(self, name, rank):
        t = mk("arg", name)
        self.s.leaf_shapes[t] = tuple(mk("dim", t, k) for k in range(rank))
        b = self.s.new(Buf(t, "arg:" + name))
        a = Arr(b)
        self.args[name] = a
        return a

    def state(self):
        out = {}
        for nm, v in [("model", self.c.m), ("instrument", self.c.i)] + sorted(self.args.items()):
            snap(self.s, v, (nm,), out, frozenset())
        return out

    def display(self, **kw):
        s = self.s
        cls = s.get(PL, "SubcolumnDisplay")
        self.disp = s.call(cls, [self.c.m], {k: K(v) for k, v in kw.items()})
        return self.disp

    def judge(self, what, f):
        """runs one plotting step and compares everything before and after"""
        s, o = self.s, self.o
        before = self.state()
        s.events = []
        try:
            f()
        except AbsRaise as e:
            o.unk("%s: %s raises %s" % (self.cfg, what, e))
        after = self.state()
        o.n("obligations", len(before))
        o.n("figures")
        ev = [e for e in s.events if e.kind in ("mutate", "replace", "dsset")]
        for p, t in before.items():
            if p[-1] == "<id>":
                crop = [e for e in s.events if e.kind == "ds_method" and e.data.get("name") in ("isel", "sel", "squeeze")]
                if p == ("model", "ds", "<id>") and after.get(p) != t and crop:
                    o.find("%s:model.ds replaced" % what.split("(")[0],
                           "%s: %s replaces the model's dataset by a selection of it" % (self.cfg, what), crop[-1])
                continue
            u = after.get(p)
            if u is t or u == t:
                continue
            nm = ".".join(map(str, p))
            leaf = str([x for x in p if not str(x).startswith("<")][-1])
            own = [e for e in ev if str(e.data.get("owner", "")).split(":")[-1] == leaf or e.data.get("name") == leaf]
            new = "removed" if u is None else tm.show(u, 3)[:160] if isinstance(u, tm.T) else str(u)[:160]
            o.find("%s:%s" % (what.split("(")[0], self.owner(p)), "%s: %s leaves %s changed: %s" % (
                self.cfg, what, nm, new), (own or ev or [None])[-1])
        for p in after:
            if p not in before and p[0] in ("model", "instrument") and p[-1] != "<id>":
                par = p[:-1]
                o.find("%s:added:%s" % (what.split("(")[0], self.owner(p)), "%s: %s adds %s" % (
                    self.cfg, what, ".".join(map(str, p))), None)
        if len(o.samples) < 1:
            o.samples.append(dict(config=self.cfg, figure=what, entries_compared=len(before)))

    def owner(self, p):
        if p[0] not in ("model", "instrument"):
            return "argument " + p[0]
        if len(p) > 2 and p[1] == "ds":
            return "%s field%s" % (p[0], " attributes" if "<attrs>" in p else "")
        return "%s.%s" % (p[0], p[1])

    def plot(self, method, *args, **kw):
        s = self.s
        a = [x if isinstance(x, V) else K(x) for x in args]
        k = {n: x if isinstance(x, V) else self.val(x) for n, x in kw.items()}
        lab = "%s(%s)" % (method, ", ".join([str(x) for x in args if not isinstance(x, V)] +
                                            ["%s=%s" % (n, x if not isinstance(x, V) else "...") for n, x in kw.items()]))
        if self.disp is None:
            self.display()
        self.judge(lab, lambda: s.call(s.getattr(self.disp, method), a, k))

    def val(self, x):
        s = self.s
        if isinstance(x, tuple):
            return Tup(tuple(self.val(y) for y in x))
        if isinstance(x, list):
            return s.lst([("item", self.val(y)) for y in x])
        return K(x)

    def sub_field(self):
        """a simulated subcolumn field, a radar/lidar one where possible"""
        ns = list(self.s.dsnode(self.c.m).vars)
        out = [k for k in ns if k.startswith("sub_col_") and "_tot" in k]
        return out or [k for k in ns if k.startswith("sub_col_")]

    def mask_fields(self):
        return [k for k in self.s.dsnode(self.c.m).vars if "phase_mask" in k]

    def input_field(self):
        return [k for k in self.s.inputs if k.startswith("q_names")][0]


def t_make(s, o, m, i):
    sc = Scene(s, m, i, o)
    sc.judge("SubcolumnDisplay()", lambda: sc.display())
    sc.judge("SubcolumnDisplay(ds_name=)", lambda: sc.display(ds_name="run"))
    sc.judge("SubcolumnDisplay(lat_sel=,lon_sel=)", lambda: sc.display(lat_sel=1, lon_sel=2.5))
    # a model with horizontal dimensions is cropped in a copy
    s.set_field(sc.c.m, "lat_dim", K("lat"))
    s.set_field(sc.c.m, "lon_dim", K("lon"))
    s.ds_dims = s.ds_dims + ("lat", "lon")
    s.spatial = True
    for kw in ({}, dict(lat_sel=1), dict(lat_sel=10.5, lon_sel=20.5), dict(lat_sel=1, lon_sel=2)):
        sc.judge("SubcolumnDisplay(horizontal grid)", lambda: sc.display(**kw))
        f = sc.sub_field()[0]
        sc.plot("plot_subcolumn_timeseries", f)


def t_shared(s, o, m, i):
    """swapping the model shown and re-cropping"""
    sc = Scene(s, m, i, o)
    sc.display()
    other = model(s, m)
    sc.args["other"] = other
    sc.plot("_switch_model", other)
    sc.plot("_switch_lat_lon", sc.c.m, 1, 2)
    sc.plot("set_yrng", (0,), (0., 1000.))
    sc.plot("set_xrng", (0,), (0., 10.))


T_OPTS = [dict(), dict(pressure_coords=False), dict(log_plot=True, vmin=1e-3, vmax=1.), dict(colorbar=False),
          dict(title="t", cbar_label="c"), dict(x_range=(0., 1.), y_range=(0., 1.))]


def masks(sc, rank):
    return [dict(Mask_array=sc.arr("mask", rank)), dict(Mask_array=sc.arr("mask", rank), hatched_mask=True),
            dict(Mask_array=sc.arr("mask", rank), hatched_mask="/"),
            dict(Mask_array=sc.arr("mask", rank), pressure_coords=False)]


def one_height(s, sc):
    """heights and pressures that do not vary in time"""
    dr = s.ds_of(sc.c.m)
    n = s.node(dr.addr)
    for k in ("z_field", "p_field"):
        nm = s.field(sc.c.m, k).val
        d = s.node(n.vars[nm])
        h = s.field(sc.c.m, "height_dim").val
        t = mk("in", nm + "1")
        s.leaf_shapes[t] = (s.term(s.dim_size(None, K(h), None)),)
        s.put(n.vars[nm], d.but(buf=s.new(Buf(t, "in:" + nm)), path=(), dims=(h,)))


def t_series(s, o, m, i):
    sc = Scene(s, m, i, o)
    one_height(s, sc)
    for kw in T_OPTS[1:2] + masks(sc, 2)[3:]:
        sc.plot("plot_subcolumn_timeseries", sc.sub_field()[0], **kw)
        sc.plot("plot_single_profile", sc.sub_field()[0], "2020-01-01T00:00:00", **kw)
        sc.plot("plot_subcolumn_mean_profile", sc.sub_field()[0], pressure_coords=False)
        sc.plot("plot_column_input_q_timeseries", sc.input_field(), **kw)
    sc = Scene(s, m, i, o)
    for f in sc.sub_field()[:2] + sc.mask_fields()[:1]:
        for kw in T_OPTS + masks(sc, 2):
            sc.plot("plot_subcolumn_timeseries", f, **kw)
    sc.plot("plot_subcolumn_timeseries", sc.sub_field()[0], column_no=3)
    sc.plot("plot_subcolumn_timeseries", sc.input_field())
    for kw in T_OPTS + masks(sc, 2):
        sc.plot("plot_column_input_q_timeseries", sc.input_field(), **kw)


def t_profile(s, o, m, i):
    sc = Scene(s, m, i, o)
    for f in sc.sub_field()[:2]:
        for kw in T_OPTS[:5] + masks(sc, 2):
            sc.plot("plot_single_profile", f, "2020-01-01T00:00:00", **kw)
        for kw in [dict(), dict(pressure_coords=False), dict(log_plot=True), dict(plot_SD=False),
                   dict(use_geom_mean=True), dict(use_geom_mean="auto"), dict(alpha=0.5), dict(Xlabel="x"),
                   dict(time="2020-01-01T00:00:00"), dict(time=("2020-01-01T00:00:00", "2020-01-01T01:00:00")),
                   dict(Mask_array=sc.arr("mask3", 3)),
                   dict(Mask_array=sc.arr("mask3", 3), pressure_coords=False, log_plot=True)]:
            sc.plot("plot_subcolumn_mean_profile", f, **kw)


def t_instrument(s, o, m, i):
    sc = Scene(s, m, i, o)
    for f in ("backscatter", "Ze_obs"):
        for kw in [x for x in T_OPTS if "pressure_coords" not in x] + masks(sc, 2)[:3]:
            sc.plot("plot_instrument_timeseries", sc.c.i, f, **kw)
        for kw in [dict(), dict(pressure_coords=False), dict(log_plot=True), dict(plot_SD=False),
                   dict(use_geom_mean=True), dict(alpha=0.5), dict(time_range=("2020-01-01", "2020-01-02")),
                   dict(Mask_array=sc.arr("mask", 2)),
                   dict(Mask_array=sc.arr("mask", 2), time_range=("2020-01-01", "2020-01-02"))]:
            sc.plot("plot_instrument_mean_profile", sc.c.i, f, **kw)


def t_mask(s, o, m, i):
    sc = Scene(s, m, i, o)
    for f in sc.mask_fields():
        for z in (False, True):
            for kw in (dict(variable=f), dict(variable=f, class_legend=["a", "b"]), dict(variable=f, cmap="jet")):
                sc.plot("change_plot_to_class_mask", Num(mk("ext", "colorbar"), "unk"), convert_zeros_to_nan=z, **kw)
    lg = s.lst([("item", K("a")), ("item", K("b"))])
    sc.args["legend"] = lg
    sc.plot("change_plot_to_class_mask", Num(mk("ext", "colorbar"), "unk"), lg)


def t_regrid(s, o, m, i):
    sc = Scene(s, m, i, o)
    for kw in (dict(), dict(colorbar=False, title="t"), dict(x_range=(0., 1.), y_range=(0., 1.)), dict(vmin=0., vmax=1.)):
        sc.plot("plot_regridded_CF_timeseries", sc.arr("cf", 3), sc.arr("levels", 1), 0, **kw)
        sc.plot("plot_regridded_SR_timeseries", sc.arr("sr", 4), sc.arr("levels", 1), 0, 0, **kw)


def t_stats(s, o, m, i):
    """the figures of the statistics package"""
    sc = Scene(s, m, i, o)
    for nm in ["sub_col_" + x for x in ("Ze_att_tot", "beta_att_tot", "Ze_tot", "beta_p_tot", "beta_p_att_tot")] + [
            "strat_q_subcolumns_" + x for x in ("cl", "ci", "pl", "pi")]:
        if nm not in s.dsnode(sc.c.m).vars:
            add_input(s, sc.c.m, nm, ("subcolumn",) + tuple(s.ds_dims))
    calls = [
        ("plot_radar_CFAD", lambda: (sc.arr("edges", 1), sc.arr("levels", 1), sc.arr("cfad", 2))),
        ("plot_lidar_SR_CFAD", lambda: (sc.arr("edges", 1), sc.arr("levels", 1), sc.arr("cfad", 2))),
        ("plot_every_subcolumn_timeseries_radarlidarsignal", lambda: (sc.c.m, K(0))),
        ("plot_every_subcolumn_timeseries_nonatt_radarlidarsignal", lambda: (sc.c.m, K(0))),
        ("plot_every_subcolumn_timeseries_SR", lambda: (sc.c.m, sc.arr("atb", 4), sc.arr("atb_mol", 4), K(0))),
        ("plot_every_subcolumn_timeseries_mixingratio", lambda: (sc.c.m, K(0))),
        ("plot_every_subcolumn_timeseries_mixingratio_cloud_precipitation", lambda: (sc.c.m, K(0))),
    ]
    for nm, mkargs in calls:
        if not has_func(s, ST, nm):
            o.unk("no function %s" % nm)
            continue
        for flag in ("save", "no"):
            for kw in (dict(), dict(vmin=0., vmax=1., cmap="jet")):
                a = list(mkargs())
                k = {x: K(y) for x, y in kw.items()}
                k.update(fig_path=K("figs"), fig_name=K("f"))
                sc.judge("%s(%s%s)" % (nm, flag, ", vmin, vmax, cmap" if kw else ""),
                         lambda: s.call(s.get(ST, nm), a + [K(flag)], k))


def main(tier):
    return base.main(
        "C24", tasks, fn,
        "Every display method and statistics figure is interpreted abstractly on a simulated model with an attached "
        "instrument dataset, for its option variants; the content of every field, attribute, coordinate and "
        "configuration entry of the model and the instrument, and of every array passed in, is compared before and "
        "after. Views (slices, transposes, squeezes, reshapes, .values) share the buffer of what they view, so an "
        "in-place edit of a view is an edit of the data.",
        ["matplotlib and act do not write into the arrays they are given",
         "reshape is taken to be able to return a view (it does for single-element dimensions)"], tier=tier)
