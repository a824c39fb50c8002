"""C32: a figure shows the field, subcolumn, times, mask and limits it was asked for."""
import math

from . import base
from .scen import *  # noqa
from .c16 import put
from engine.elem import Ev, A, Misfit, Unread, indexes, isnan, lift, permute
from engine.interp import AbsRaise
from engine.drive import raw_instrument
from engine.layout import Layout
from engine.values import *  # noqa

PL, CLS = "emc2.plotting.subcol_display", "SubcolumnDisplay"
ST = "emc2.statistics_LLNL.statistical_plots"
SIZES = dict(subcolumn=2, time=3, lev=4)
ZE, BETA, VD = "sub_col_Ze_att_tot", "sub_col_beta_p_tot", "sub_col_Vd_tot_strat"
TIMES = [10., 11., 12.]


def tasks(tier):
    out = []
    for m in ("E3SMv1", "ModelE", "CESM2", "DHARMA", "WRF_morrison"):
        out += [("series", m), ("single", m), ("mean", m), ("inputq", m), ("regrid", m), ("instrument", m),
                ("swap", m), ("classes", m), ("moments", m), ("stats", m), ("cfad", m)]
    out += [("latlon", m) for m in ("E3SMv1", "ModelE", "CESM2")]
    return out


def fn(s, task, o):
    try:
        globals()["t_" + task[0]](s, o, task[1])
    finally:
        s.layout = None
        for h in ("numpy.issubdtype", "matplotlib.dates.date2num"):
            s.hooks.pop(h, None)


# -- evaluation of what is drawn -----------------------------------------------------------------------------------

class Pic(Ev):
    def go(self, t):
        if t.op == "ext" and t.args and isinstance(t.args[0], str):
            if t.args[0].endswith("finfo"):
                raise Unread("finfo")
        return Ev.go(self, t)

    def o_np_hstack(self, t, xs, *r):
        if xs.op == "tup" and len(xs.args) == 1:
            xs = xs.args[0]
        v = lift(self(xs)) if xs.op != "tup" else None
        if v is None:
            vs = [lift(self(y)) for y in xs.args]
            if any(len(y.sh) != 1 for y in vs):
                raise Unread("hstack")
            d = [q for y in vs for q in y.d]
            return A((len(d),), d)
        if len(v.sh) != 2:
            raise Unread("hstack")
        return A((len(v.d),), list(v.d))

    def o_dim(self, t, a, k):
        if isinstance(a, tm.T) and a.op == "extm" and a.args[1] in self.dims and k in ("len", 0, "size", ("shape", 0)):
            return self.dims[a.args[1]]
        return Ev.o_dim(self, t, a, k)

    def o_call(self, t, f, *xs):
        """straight lines between points, and beyond them"""
        if f.op == "ext:scipy.interpolate.interp1d" and len(xs) == 1 and len(f.args) > 1 and all(
                q.op == "kw" and q.args[0] == "fill_value" for q in f.args[2:]):
            x, y = [q.args[0] if q.op == "ext:matplotlib.dates.date2num" else q for q in f.args[:2]]
            if y.op == "tup" and len(y.args) == 1 and y.args[0].op == "map":
                y = y.args[0]
            x, y, v = lift(self(x)), lift(self(y)), lift(self(xs[0]))
            if len(x.sh) != 1 or x.sh != y.sh or x.sh[0] < 2 or list(x.d) != sorted(x.d):
                raise Unread("interp1d")

            def at(z):
                k = max(1, min(len(x.d) - 1, sum(1 for q in x.d if q < z)))
                return y.d[k - 1] + (z - x.d[k - 1]) * (y.d[k] - y.d[k - 1]) / (x.d[k] - x.d[k - 1])
            return A(v.sh, [at(z) for z in v.d])
        raise Unread("call")

    def o_np_meshgrid(self, t, a, b, *r):
        raise Unread("meshgrid")

    def o_idx(self, t, a, k):
        if a.op == "np:meshgrid" and len(a.args) == 2 and k.op == "c" and k.args[0] in (0, 1):
            x, y = [lift(self(q)) for q in a.args]
            if len(x.sh) != 1 or len(y.sh) != 1:
                raise Unread("meshgrid")
            n, m = x.sh[0], y.sh[0]
            return A((m, n), [x.d[j] if k.args[0] == 0 else y.d[i] for i in range(m) for j in range(n)])
        return Ev.o_idx(self, t, a, k)

    def o_np_masked_where(self, t, c_, a, *r):
        c_, a = lift(self(c_)), lift(self(a))
        if c_.sh != a.sh:
            raise Unread("mask shape")
        return A(a.sh, [NANF if p else q for p, q in zip(c_.d, a.d)])

    def o_nanstd(self, t, a, ax=None, *r):
        def f(v):
            w = [x for x in v if not isnan(x)]
            if not w:
                return NANF
            mu = sum(w) / len(w)
            return (sum((x - mu) ** 2 for x in w) / len(w)) ** .5
        return self.red(f, a, ax)

    def shape_of(self, t):
        if t.op == "dim" and len(t.args) == 2 and t.args[1] == "shape":
            return lift(self(t.args[0])).sh
        if t.op == "tup":
            return tuple(self(x) for x in t.args)
        return None

    def o_eq(self, t, a, b):
        x, y = self.shape_of(a), self.shape_of(b)
        if x is not None and y is not None:
            return x == y
        return Ev.o_eq(self, t, a, b)


NANF = float("nan")


def near(x, y):
    if isnan(x) or isnan(y) or x is None or y is None:
        return (isnan(x) or x is None) and (isnan(y) or y is None)
    if x in (float("inf"), -float("inf")) or y in (float("inf"), -float("inf")):
        return x == y
    return abs(x - y) <= 1e-9 * max(1e-30, abs(x), abs(y))


class Scene:
    """a model whose every element is a different number, a display of it, and what each call draws"""

    def __init__(self, s, o, name, z2=True, extra=(), shape=None):
        fresh(s)
        self.s, self.o, self.name = s, o, name
        m = self.m = raw_model(s, name)
        s.setattr(m, "num_subcolumns", K(SIZES["subcolumn"]))
        self.td = s.pyval(s.getattr(m, "time_dim"))
        self.hd = s.pyval(s.getattr(m, "height_dim"))
        self.zf, self.pf = (s.pyval(s.getattr(m, k)) for k in ("z_field", "p_field"))
        self.sizes = {"subcolumn": SIZES["subcolumn"], self.td: SIZES["time"], self.hd: SIZES["lev"]}
        self.sizes.update(shape or {})
        s.layout = L = Layout(s, self.sizes, {})
        self.shapes = {}
        self.dims = {}
        self.dsr = Ref(s.new(DS({}, s.new(Dct({})), None, None)))
        T, H = self.td, self.hd
        self.add(T, (T,))
        self.add(H, (H,))
        self.add("subcolumn_", ("subcolumn",))
        for n in (ZE, BETA, VD, "other_field"):
            self.add(n, ("subcolumn", T, H))
        self.add("q_in", (T, H))
        for n in (self.zf, self.pf):
            if n not in self.dims:
                self.add(n, (T, H) if z2 else (H,))
        for n, d in extra:
            self.add(n, d)
        s.setattr(m, "ds", self.dsr)
        L.labels[T] = dict(zip(TIMES, range(3)))
        L.labels[T].update({"t0": 0, "t1": 1, "t2": 2})
        s.hooks["numpy.issubdtype"] = lambda *a: K(False)
        self.values = L.known = {T: A((3,), list(TIMES))}
        self.disp = None
        self.args = {}

    def add(self, n, dims):
        put(self.s, self.dsr, n, dims, self.dims)
        self.shapes[n] = tuple(self.sizes[d] for d in dims)

    def arr(self, name, sh, values=None):
        t = mk("arg", name)
        self.s.leaf_shapes[t] = tuple(tm.c(x) for x in sh)
        self.shapes[name] = tuple(sh)
        if values is not None:
            self.values[name] = A(tuple(sh), list(values))
        return Arr(self.s.new(Buf(t, "arg:" + name)))

    def mask(self, name, sh, below=0):
        n = 1
        for x in sh:
            n *= x
        return self.arr(name, sh, [(0, 1, below, .5, 0)[(i * 7 + 3) % 5] for i in range(n)])

    def ev(self):
        return Pic(5, self.shapes, {}, dict(self.sizes), values=self.values)

    def A(self, name):
        e = self.ev()
        return lift(e.leaf(name))

    def display(self):
        s = self.s
        self.disp = s.call(s.get(PL, CLS), [self.m], {})

    def wrap(self, x):
        s = self.s
        if isinstance(x, V):
            return x
        if isinstance(x, tuple):
            return Tup(tuple(self.wrap(y) for y in x))
        return K(x)

    def draw(self, f, args, kw, label):
        """what the call hands to matplotlib, in order; None when it cannot be followed"""
        s, o = self.s, self.o
        s.events = []
        self.label = "%s: %s" % (self.name, label)
        self.key = label.split("(")[0]
        o.n("figures")
        try:
            r = s.call(f, [self.wrap(x) for x in args], {k: self.wrap(v) for k, v in kw.items()})
        except AbsRaise as e:
            o.n("obligations")
            self.find("raises:" + e.exc, "stops with %s: %s" % (e.exc, e.msg), None)
            return None
        except (Unread, Misfit) as e:
            o.unk("%s: %s" % (self.label, e))
            return None
        out = [e for e in s.events if e.kind == "draw"]
        return out

    def plot(self, method, *args, **kw):
        if self.disp is None:
            self.display()
        lab = "%s(%s)" % (method, ", ".join([str(x) for x in args if not isinstance(x, V)] + [
            "%s=%s" % (k, "..." if isinstance(v, V) else v) for k, v in kw.items()]))
        return self.draw(self.s.getattr(self.disp, method), args, kw, lab)

    def stat(self, name, *args, **kw):
        lab = "%s(%s)" % (name, ", ".join("%s=%s" % (k, "..." if isinstance(v, V) else v) for k, v in kw.items()))
        return self.draw(self.s.get(ST, name), args, kw, lab)

    def find(self, what, msg, ev):
        s = self.s
        if ev is None:
            try:
                f = s.getattr(self.disp, self.key) if self.disp is not None else s.get(ST, self.key)
                f = getattr(f, "func", f)
                ev = (f.module.path if hasattr(f.module, "path") else PL.replace(".", "/") + ".py", f.node.lineno, self.key)
            except Exception:
                ev = (PL.replace(".", "/") + ".py", 0, self.key)
        self.o.find("%s:%s" % (self.key, what), "%s %s" % (self.label, msg), ev)

    # -- rules
    def value(self, x):
        if isinstance(x, tm.T):
            return self.ev()(x)
        return x

    def array(self, what, term, ref, ev, bcast=None):
        """the array drawn is the one meant"""
        o = self.o
        if not isinstance(term, tm.T):
            o.unk("%s: %s" % (self.label, what))
            return
        try:
            v = lift(self.value(term))
        except Misfit as z:
            o.n("obligations")
            self.find(what, "draws %s of arrays that do not fit: %s" % (what, z), ev)
            return
        except Unread as z:
            o.unk("%s: %s: %s" % (self.label, what, z))
            return
        if bcast and v.sh != ref.sh and len(v.sh) == 1:
            ax = bcast
            if v.sh[0] == ref.sh[ax]:
                v = A(ref.sh, [v.d[ix[ax]] for ix in indexes(ref.sh)])
        o.n("obligations")
        if len(o.samples) < 3:
            o.samples.append(dict(figure=self.label, compared=what, elements=len(ref.d)))
        if v.sh != ref.sh:
            self.find(what, "draws %s with shape %s, expected %s" % (what, v.sh, ref.sh), ev)
            return
        for i, (p, q) in enumerate(zip(v.d, ref.d)):
            if not near(p, q):
                self.find(what, "draws %s that is not what was asked for (element %s: %s, expected %s)" % (
                    what, list(indexes(ref.sh))[i], p, q), ev)
                return

    def given(self, what, got, want, ev):
        o = self.o
        o.n("obligations")
        if isinstance(got, tm.T):
            try:
                got = self.value(got)
            except Unread:
                t = tm.show(got, 3)
                if got.op in ("tup",):
                    got = tuple(x.args[0] if x.op == "c" else x for x in got.args)
                else:
                    self.o.unk("%s: %s" % (self.label, what))
                    return
            if isinstance(got, A):
                got = tuple(got.d)
        if got != want and not (isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)) and
                                tuple(got) == tuple(want)):
            self.find(what, "uses %s for the %s given as %s" % (got, what, want), ev)

    def limits(self, e, vmin, vmax):
        """colour limits that reach the mesh"""
        a = dict(e.data["kw"])
        n = a.get("norm")
        if isinstance(n, tm.T):
            if not (n.op.startswith("ext:") and (n.op.endswith("Norm") or n.op.endswith(".Normalize"))):
                self.o.unk("%s: norm" % self.label)
                return
            pos = ["vmin", "vmax"]
            for x in n.args:
                if isinstance(x, tm.T) and x.op == "kw":
                    a[x.args[0] if not isinstance(x.args[0], tm.T) else x.args[0].args[0]] = x.args[1]
                elif pos:
                    a[pos.pop(0)] = x
        for k, v in (("vmin", vmin), ("vmax", vmax)):
            x = a.get(k)
            if isinstance(x, tm.T) and x.op == "c":
                x = x.args[0]
            if v is not None:
                self.given(k, x, v, e)
        return a


def only(sc, evs, name, n=None):
    r = [e for e in evs if e.data["name"] == name]
    if n is not None and len(r) != n:
        sc.o.n("obligations")
        sc.find(name, "calls %s %d times, expected %d" % (name, len(r), n), r[-1] if r else None)
        return None
    return r


def grid(sc, x, y):
    n, m = len(x), len(y)
    return A((m, n), [x[j] for i in range(m) for j in range(n)]), A((m, n), [y[i] for i in range(m) for j in range(n)])


def masked(z, mk_):
    """z with the cells removed where the mask is above 0"""
    return A(z.sh, [NANF if m > 0 else v for v, m in zip(z.d, mk_.d)])


def T2(a):
    return permute(a, [1, 0])


def pick(a, axis, i):
    sh = a.sh[:axis] + a.sh[axis + 1:]
    return A(sh, [a.at(ix[:axis] + (i,) + ix[axis:]) for ix in indexes(sh)])


def mean0(a):
    n, m = a.sh
    return [sum(a.at((i, j)) for i in range(n)) / n for j in range(m)]


def lack(sc, evs, others, what, msg):
    """a call that is missing, unless something else may stand for it"""
    if any(e.data["name"] in others or e.data["name"].startswith("plt:") and e.data["name"] != "plt:colorbar" or
           e.data["name"] == "set" for e in evs):
        sc.o.unk("%s: %s: other calls" % (sc.label, what))
        return
    sc.o.n("obligations")
    sc.find(what, msg, None)


def bounds(e):
    a, k = list(e.data["args"]), e.data["kw"]
    if not a:
        a = [k.get(p, k.get(q)) for p, q in (("left", "xmin"), ("right", "xmax"))] if "lim" in e.data["name"] and \
            e.data["name"].startswith("set_x") else [k.get(p, k.get(q)) for p, q in (("bottom", "ymin"), ("top", "ymax"))]
    return a[0] if len(a) == 1 else tuple(x.args[0] if isinstance(x, tm.T) and x.op == "c" else x for x in a)


def common(sc, evs, kw, mesh, invert=None):
    """titles, labels, ranges, colour bar"""
    for k, call in (("title", "set_title"),):
        r = [e for e in evs if e.data["name"] == call]
        if kw.get(k) is not None:
            if not r:
                lack(sc, evs, ("suptitle",), k, "never sets the title given")
            else:
                sc.given(k, r[-1].data["args"][0] if r[-1].data["args"] else r[-1].data["kw"].get("label"), kw[k], r[-1])
    for k, call in (("x_range", "set_xlim"), ("y_range", "set_ylim")):
        r = [e for e in evs if e.data["name"] == call]
        if kw.get(k) is not None:
            if not r:
                lack(sc, evs, ("axis", "set_xbound", "set_ybound"), k, "never applies the %s given" % k)
            else:
                sc.given(k, bounds(r[-1]), kw[k], r[-1])
    r = [e for e in evs if e.data["name"] == "set_label"]
    if kw.get("colorbar") is False:
        sc.o.n("obligations")
        if r:
            sc.find("colorbar", "draws a colour bar although colorbar=False", r[0])
    elif kw.get("cbar_label") is not None and mesh is not None:
        if not r:
            lack(sc, evs, ("colorbar", "plt:colorbar", "set_ylabel"), "colorbar", "labels no colour bar")
        else:
            sc.given("cbar_label", r[-1].data["args"][0] if r[-1].data["args"] else r[-1].data["kw"].get("label"),
                     kw["cbar_label"], r[-1])
    if invert is not None:
        r = [e for e in evs if e.data["name"] == "invert_yaxis"]
        sc.o.n("obligations")
        if any(e.data["name"] in ("set_inverted", "axis", "set", "set_ybound") or e.data["name"] == "set_ylim" and
               kw.get("y_range") is None for e in evs):
            sc.o.unk("%s: direction of the y axis" % sc.label)
        elif len(r) % 2 != (1 if invert else 0):
            sc.find("y axis", "turns the y axis %s, in %s coordinates" % (
                "over" if r else "not", "pressure" if invert else "height"), r[0] if r else None)


OTHER = ("pcolorfast", "imshow", "matshow", "contourf", "contour", "plt:pcolormesh", "plt:imshow", "plt:contourf",
         "plt:plot", "semilogx", "semilogy", "loglog", "errorbar", "scatter", "plt:pcolor", "plt:fill_betweenx")


def curtain(sc, evs, kw, x, y, z, invert, mask=None, vmin=None, vmax=None, scale=None):
    """a pcolormesh of z over x, y"""
    if evs is None:
        return
    hatched = kw.get("hatched_mask", False)
    if mask is not None and not hatched:
        z = masked(z, mask)
    if any(e.data["name"] in OTHER for e in evs):
        sc.o.unk("%s: drawn otherwise" % sc.label)
        return
    r = only(sc, evs, "pcolormesh", 1)
    if not r:
        return
    e = r[0]
    a = e.data["args"]
    if len(a) != 3:
        sc.o.unk("%s: pcolormesh arguments" % sc.label)
        return
    gx, gy = grid(sc, x, y)
    sc.array("x coordinates", a[0], gx, e, 1)
    # one coordinate per row
    if isinstance(a[1], tm.T):
        sc.array("y coordinates", a[1], gy, e, 0) if False else ycoord(sc, a[1], gy, e)
    sc.array("data", a[2], z, e)
    if not any(e.data["name"] in ("set_clim", "update", "set") for e in evs):
        sc.limits(e, vmin, vmax)
    h = only(sc, evs, "pcolor", 1 if hatched and mask is not None else 0)
    if h and hatched and mask is not None:
        sc.array("hatched cells", h[0].data["args"][2], A(z.sh, [1 if m > 0 else NANF for m in mask.d]), h[0])
        if isinstance(hatched, str):
            sc.given("hatch", h[0].data["kw"].get("hatch"), hatched, h[0])
    common(sc, evs, kw, e, invert)


def ycoord(sc, t, gy, e):
    try:
        v = lift(sc.value(t))
    except Unread as z:
        sc.o.unk("%s: y: %s" % (sc.label, z))
        return
    if len(v.sh) == 1 and v.sh[0] == gy.sh[0]:
        v = A(gy.sh, [v.d[ix[0]] for ix in indexes(gy.sh)])
    sc.o.n("obligations")
    if v.sh != gy.sh:
        sc.find("y coordinates", "draws rows at coordinates of shape %s, the data has %s" % (v.sh, gy.sh), e)
        return
    bad = [(p, q) for p, q in zip(v.d, gy.d) if not near(p, q)]
    if bad:
        sc.find("y coordinates", "draws rows at other places than the data's (%s, expected %s)" % bad[0], e)


OPTS = [dict(), dict(pressure_coords=False), dict(log_plot=True, vmin=1e-3, vmax=2.), dict(log_plot=True),
        dict(log_plot=True, vmax=2.), dict(log_plot=True, vmin=1e-3), dict(vmin=-20., vmax=30.), dict(vmax=30.),
        dict(colorbar=False), dict(title="a title", cbar_label="a label"), dict(x_range=(1., 2.), y_range=(3., 4.)),
        dict(x_range=(1., 2.)), dict(y_range=(3., 4.))]
MASKS = [dict(), dict(hatched_mask=True), dict(hatched_mask="/"), dict(pressure_coords=False),
         dict(log_plot=True, vmin=1e-3, vmax=2.)]


def y_of(sc, kw, tsel=None):
    """coordinate of the rows"""
    if kw.get("pressure_coords", True):
        return list(sc.A(sc.hd).d)
    z = sc.A(sc.zf)
    if len(z.sh) == 2:
        return mean0(z) if tsel is None else list(pick(z, 0, tsel).d)
    return list(z.d)


def variants(sc, sh, opts=OPTS, masks=MASKS):
    for kw in opts:
        yield dict(kw), None
    for i, kw in enumerate(masks):
        m = sc.mask("mask%d" % i, sh, 0 if kw.get("hatched_mask") else -1)
        yield dict(kw, Mask_array=m), sc.A("mask%d" % i)


def t_series(s, o, name):
    for z2 in (True, False):
        sc = Scene(s, o, name, z2)
        for field, col in ((ZE, 1), (ZE, 0), (BETA, 1), ("q_in", None)):
            for kw, m in variants(sc, (3, 4)):
                k = dict(kw)
                if col:
                    k["column_no"] = col
                f = sc.A(field)
                z = T2(pick(f, 0, col) if len(f.sh) == 3 else f)
                evs = sc.plot("plot_subcolumn_timeseries", field, **k)
                curtain(sc, evs, kw, TIMES, y_of(sc, kw), z, kw.get("pressure_coords", True),
                        T2(m) if m is not None else None, kw.get("vmin"), kw.get("vmax"))


def t_single(s, o, name):
    for z2 in (True, False):
        sc = Scene(s, o, name, z2)
        for field, t in ((ZE, 1), (BETA, 2)):
            for kw, m in variants(sc, (2, 4)):
                f = sc.A(field)
                z = T2(pick(f, 1, t))
                evs = sc.plot("plot_single_profile", field, "t%d" % t, **kw)
                curtain(sc, evs, kw, [0, 1], y_of(sc, kw, t), z, kw.get("pressure_coords", True),
                        T2(m) if m is not None else None, kw.get("vmin"), kw.get("vmax"))


def t_inputq(s, o, name):
    for z2 in (True, False):
        sc = Scene(s, o, name, z2)
        for kw, m in variants(sc, (3, 4)):
            z = T2(sc.A("q_in"))
            z = A(z.sh, [1000. * x for x in z.d])
            evs = sc.plot("plot_column_input_q_timeseries", "q_in", **kw)
            curtain(sc, evs, kw, TIMES, [y / 1000. for y in y_of(sc, kw)], z, kw.get("pressure_coords", True),
                    T2(m) if m is not None else None, kw.get("vmin"), kw.get("vmax"))


def t_regrid(s, o, name):
    sc = Scene(s, o, name)
    lv = sc.arr("levels", (5,))
    cf = sc.arr("cf", (3, 5, 2), [(i * 5) % 7 - 1. for i in range(30)])
    sr = sc.arr("sr", (2, 3, 5, 2), [(i * 5) % 11 * 1. for i in range(60)])
    pos = lambda a: A(a.sh, [x if x > 0 else NANF for x in a.d])
    for kw in [x for x in OPTS if "log_plot" not in x and "pressure_coords" not in x]:
        for col in (0, 1):
            evs = sc.plot("plot_regridded_CF_timeseries", cf, lv, col, **kw)
            z = pos(T2(pick(sc.A("cf"), 2, col)))
            curtain(sc, evs, kw, TIMES, list(sc.A("levels").d), z, None, None, kw.get("vmin"), kw.get("vmax"))
            evs = sc.plot("plot_regridded_SR_timeseries", sr, lv, col, 1 - col, **kw)
            z = pos(T2(pick(pick(sc.A("sr"), 3, col), 0, 1 - col)))
            curtain(sc, evs, kw, TIMES, [1000. * x for x in sc.A("levels").d], z, None, None, kw.get("vmin"),
                    kw.get("vmax"))


# -- profiles
def stat(vals, geom):
    v = [x for x in vals if not isnan(x) and abs(x) != float("inf") and (x > 0 or not geom)]
    if not v:
        return NANF, NANF
    if geom:
        v = [math.log(x) for x in v]
    mu = sum(v) / len(v)
    sd = (sum((x - mu) ** 2 for x in v) / len(v)) ** .5
    return (math.exp(mu), math.exp(sd)) if geom else (mu, sd)


def profile(sc, evs, kw, y, cols, db, geom, invert):
    """mean curve and spread: cols holds the samples of each level"""
    if evs is None:
        return
    lin = [[10 ** (x / 10) for x in c_] if db else c_ for c_ in cols]
    st = [stat(c_, geom) for c_ in lin]
    lg = lambda x: NANF if isnan(x) else 10 * math.log10(x) if db else x
    if any(e.data["name"] in OTHER for e in evs):
        sc.o.unk("%s: drawn otherwise" % sc.label)
        return
    r = only(sc, evs, "plot", 1)
    if r:
        a = r[0].data["args"]
        sc.array("the mean profile", a[0], A((len(y),), [lg(mu) for mu, sd in st]), r[0])
        sc.array("the profile's levels", a[1], A((len(y),), y), r[0])
    r = only(sc, evs, "fill_betweenx", 1 if kw.get("plot_SD", True) else 0)
    if r and not geom:
        a = r[0].data["args"]
        sc.array("the spread's levels", a[0], A((len(y),), y), r[0])
        sc.array("mean plus spread", a[2], A((len(y),), [lg(mu + sd) for mu, sd in st]), r[0])
        if not db:
            sc.array("mean minus spread", a[1], A((len(y),), [lg(mu - sd) for mu, sd in st]), r[0])
    sc.o.n("obligations")
    r = [e for e in evs if e.data["name"] == "set_xscale"]
    if not db and r:
        sc.given("x scale", r[-1].data["args"][0], "log" if kw.get("log_plot") else "linear", r[-1])
    r = [e for e in evs if e.data["name"] == "set_xlabel"]
    if kw.get("Xlabel"):
        sc.given("Xlabel", r[-1].data["args"][0] if r else None, kw["Xlabel"], r[-1] if r else None)
    common(sc, evs, kw, None, invert)


POPTS = [dict(), dict(pressure_coords=False), dict(log_plot=True), dict(plot_SD=False), dict(use_geom_mean=True),
         dict(use_geom_mean="auto"), dict(title="a title"), dict(Xlabel="a label"), dict(x_range=(1., 2.)),
         dict(y_range=(1., 2.)), dict(alpha=.5)]
GEO = ("alpha", "beta", "OD", "Ze", "backscatter", "extinction", "reflectivity")


def geometric(kw, field):
    g = kw.get("use_geom_mean", False)
    return any(x in field for x in GEO) if g == "auto" else bool(g)


def t_mean(s, o, name):
    for z2 in (True, False):
        sc = Scene(s, o, name, z2)
        for fld in (ZE, BETA, VD):
            sc.values[fld] = A((2, 3, 4), [NANF if i % 7 == 2 else .3 + (i * 13 % 17) / 9. for i in range(24)])
        for field in (ZE, BETA, VD):
            f = sc.A(field)
            runs = [(kw, None, None) for kw in POPTS]
            runs += [(dict(time="t1"), None, [1]), (dict(time=(10., 12.)), None, [0, 1]),
                     (dict(time=(11., 13.), pressure_coords=False), None, [1, 2])]
            m = sc.mask("mask", (2, 3, 4), -1)
            runs += [(dict(), m, None), (dict(pressure_coords=False, use_geom_mean=True), m, None)]
            for kw, mk_, ts in runs:
                k = dict(kw)
                g = f
                if mk_ is not None:
                    k["Mask_array"] = mk_
                    g = masked(f, sc.A("mask"))
                tt = ts or [0, 1, 2]
                cols = [[g.at((i, t, h)) for i in range(2) for t in tt] for h in range(4)]
                y = sc.A(sc.pf if kw.get("pressure_coords", True) else sc.zf)
                if len(y.sh) == 2:
                    y = [sum(y.at((t, h)) for t in tt) / len(tt) for h in range(4)]
                else:
                    y = list(y.d)
                evs = sc.plot("plot_subcolumn_mean_profile", field, **k)
                profile(sc, evs, kw, y, cols, "Ze" in field, geometric(kw, field), kw.get("pressure_coords", True))


def t_moments(s, o, name):
    """arithmetic and geometric mean and spread of what is finite (and, for the geometric ones, positive)"""
    sc = Scene(s, o, name)
    sc.display()
    if not getattr(s.get(PL, CLS), "find", lambda k: True)("calc_mean_and_sd"):
        o.unk("calc_mean_and_sd")
        return
    for bad in (False, True):
        v = [.3 + (i * 13 % 17) / 9. for i in range(24)]
        if bad:
            v = [NANF if i % 7 == 2 else -x if i % 5 == 1 else x for i, x in enumerate(v)]
        a = sc.arr("sample", (2, 3, 4), v)
        f = sc.A("sample")
        for geom in (False, True):
            for axis in (0, (0, 1), None):
                s.events = []
                sc.key = "calc_mean_and_sd"
                sc.label = "%s: calc_mean_and_sd(%s, axis=%s)%s" % (name, geom, axis, ", with gaps" if bad else "")
                o.n("figures")
                try:
                    r = s.call(s.getattr(sc.disp, "calc_mean_and_sd"), [a], {
                        "use_geom_mean": K(geom), "axis": sc.wrap(axis)})
                except (Unread, Misfit) as z:
                    o.unk("%s: %s" % (sc.label, z))
                    continue
                if not isinstance(r, Tup) or len(r.items) != 2:
                    o.unk(sc.label)
                    continue
                ax = (axis,) if isinstance(axis, int) else (0, 1, 2) if axis is None else axis
                keep = [k for k in range(3) if k not in ax]
                sh = tuple(f.sh[k] for k in keep)
                cells = {}
                for ix in indexes(f.sh):
                    cells.setdefault(tuple(ix[k] for k in keep), []).append(f.at(ix))
                ms = [stat(cells[ix], geom) for ix in indexes(sh)]
                for k, what in ((0, "mean"), (1, "spread")):
                    sc.array("%s %s" % ("geometric" if geom else "arithmetic", what), s.term(r.items[k]),
                             A(sh, [q[k] for q in ms]), None)


# -- observations
def t_instrument(s, o, name):
    for yv in ("range", "altitude", "height"):
        sc = Scene(s, o, name, shape={"time": 3, "range": 4, "altitude": 4, "height": 4})
        lay, s.layout = s.layout, None
        inst = raw_instrument(s, "KAZR")
        s.layout = lay
        ods = Ref(s.new(DS({}, s.new(Dct({})), None, None)))
        names = {"time": ("time",), yv: (yv,), "backscatter": ("time", yv), "Ze_obs": ("time", yv),
                 "other_obs": ("time", yv)}
        for n, d in names.items():
            put(s, ods, n, d, {})
            sc.shapes[n] = tuple(sc.sizes[x] for x in d)
        sc.values["time"] = A((3,), list(TIMES))
        s.set_field(inst, "ds", ods)
        for fld in ("backscatter", "Ze_obs"):
            for kw, m in variants(sc, (3, 4), [x for x in OPTS if "pressure_coords" not in x],
                                  [x for x in MASKS if "pressure_coords" not in x]):
                evs = sc.plot("plot_instrument_timeseries", inst, fld, **kw)
                curtain(sc, evs, kw, TIMES, list(sc.A(yv).d), T2(sc.A(fld)), None, T2(m) if m is not None else None,
                        kw.get("vmin"), kw.get("vmax"))
            sc.values[fld] = A((3, 4), [NANF if i % 7 == 2 else .3 + (i * 13 % 17) / 9. for i in range(12)])
            f = sc.A(fld)
            runs = [(kw, None, None) for kw in POPTS if "pressure_coords" not in kw]
            runs += [(dict(time_range=(10., 12.)), None, [0, 1]), (dict(time_range=(11., 13.)), None, [1, 2])]
            mk_ = sc.mask("mask", (3, 4), -1)
            runs += [(dict(), mk_, None)]
            for kw, mm, ts in runs:
                k = dict(kw)
                g = f
                if mm is not None:
                    k["Mask_array"] = mm
                    g = masked(f, sc.A("mask"))
                cols = [[g.at((t, h)) for t in (ts or [0, 1, 2])] for h in range(4)]
                evs = sc.plot("plot_instrument_mean_profile", inst, fld, **k)
                profile(sc, evs, kw, list(sc.A(yv).d), cols, "Ze" in fld, geometric(kw, fld), None)


# -- another model in the same display
def t_swap(s, o, name):
    for kw in (dict(), dict(ds_name="a run")):
        sc = Scene(s, o, name)
        lay, s.layout = s.layout, None
        other = raw_model(s, name)
        s.layout = lay
        for k in ("num_subcolumns", "time_dim", "height_dim", "z_field", "p_field"):
            s.setattr(other, k, s.getattr(sc.m, k))
        s.setattr(other, "model_name", K("other model"))
        L = s.layout
        ds2 = Ref(s.new(DS({}, s.new(Dct({})), None, None)))
        for n in (sc.td, sc.hd, ZE, sc.zf, sc.pf):
            put(s, ds2, n, sc.dims[n], {})
            L.leaves["2:" + n] = sc.shapes[n]
            sc.shapes["2:" + n] = sc.shapes[n]
            nd = s.node(ds2.addr)
            t = tm.mk("in", "2:" + n)
            s.leaf_shapes[t] = tuple(tm.c(x) for x in sc.shapes[n])
            d = s.node(nd.vars[n])
            s.put(nd.vars[n], d.but(buf=s.new(Buf(t, None))))
        sc.values["2:" + sc.td] = A((3,), list(TIMES))
        s.setattr(other, "ds", ds2)
        s.events = []
        sc.disp = s.call(s.get(PL, CLS), [sc.m], {k: K(v) for k, v in kw.items()})
        if sc.draw(s.getattr(sc.disp, "_switch_model"), [other], {}, "_switch_model(%s)" % kw) is None:
            continue
        evs = sc.plot("plot_subcolumn_timeseries", ZE, column_no=1)
        curtain(sc, evs, {}, TIMES, list(sc.A("2:" + sc.hd).d), T2(pick(sc.A("2:" + ZE), 0, 1)), True)
        evs = sc.plot("plot_subcolumn_timeseries", ZE, column_no=1, pressure_coords=False)
        curtain(sc, evs, {}, TIMES, mean0(sc.A("2:" + sc.zf)), T2(pick(sc.A("2:" + ZE), 0, 1)), False)


def t_latlon(s, o, name):
    """the grid cell asked for, by index, by nearest coordinate, or the first one"""
    T, H = "time", "lev"
    for order in ((0, 1, 2, 3, 4), (0, 3, 4, 1, 2), (3, 4, 0, 1, 2)):
        for kw, at in ((dict(), (0, 0)), (dict(lat_sel=1), (1, 0)), (dict(lon_sel=2), (0, 2)),
                       (dict(lat_sel=1, lon_sel=1), (1, 1)), (dict(lat_sel=41., lon_sel=2), (1, 2)),
                       (dict(lat_sel=40., lon_sel=102.), (0, 2))):
            sc = Scene(s, o, name, shape={"lat": 2, "lon": 3})
            if s.pyval(s.getattr(sc.m, "lat_dim")) != "lat" or s.pyval(s.getattr(sc.m, "lon_dim")) != "lon":
                o.unk("%s: names of the horizontal dimensions" % name)
                return
            dm = ("subcolumn", sc.td, sc.hd, "lat", "lon")
            sc.add("big", [dm[i] for i in order])
            for n in (sc.zf, sc.pf):
                if n not in (sc.td, sc.hd):
                    sc.add(n, (sc.td, sc.hd, "lat", "lon"))
            sc.add("lat", ("lat",))
            sc.add("lon", ("lon",))
            s.layout.labels["lat"] = {40.: 0, 41.: 1}
            s.layout.labels["lon"] = {100.: 0, 101.: 1, 102.: 2}
            s.setattr(sc.m, "ds", sc.dsr)
            back = [order.index(k) for k in range(5)]

            def shown(at, label):
                z = permute(sc.A("big"), back)
                z = pick(pick(z, 3, at[0]), 3, at[1])
                y = sc.A(sc.zf)
                y = mean0(pick(pick(y, 2, at[0]), 2, at[1])) if len(y.sh) == 4 else list(y.d)
                evs = sc.plot("plot_subcolumn_timeseries", "big", column_no=1, pressure_coords=False)
                if evs is not None:
                    sc.label += label
                    curtain(sc, evs, {}, TIMES, y, T2(pick(z, 0, 1)), False)

            s.events = []
            sc.label = "%s: display %s" % (name, kw)
            sc.key = "__init__"
            sc.disp = s.call(s.get(PL, CLS), [sc.m], {k: K(v) for k, v in kw.items()})
            shown(at, " of a display made with %s" % kw)
            if order[0] == 0 and getattr(s.get(PL, CLS), "find", lambda k: True)("_switch_lat_lon"):
                if sc.draw(s.getattr(sc.disp, "_switch_lat_lon"), [sc.m], dict(lat_sel=0, lon_sel=1, deep=True),
                           "_switch_lat_lon(lat_sel=0, lon_sel=1, deep=True)") is not None:
                    shown((0, 1), " after _switch_lat_lon(model, lat_sel=0, lon_sel=1, deep=True)")


# -- the colour bar of a classification
def t_classes(s, o, name):
    sc = Scene(s, o, name)
    legend = ["cloud", "drizzle", "rain", "ice"]
    for nan0 in (False, True):
        for own in (False, True):
            sc.add("mask", ("subcolumn", sc.td, sc.hd))
            s.setattr(sc.m, "ds", sc.dsr)
            d = s.node(s.node(sc.dsr.addr).vars["mask"])
            L = lambda: s.lst([("item", K(q)) for q in legend])
            s.put(s.node(sc.dsr.addr).vars["mask"], d.but(attrs=s.new(Dct({"legend": L()}))))
            cb = Num(mk("arg", "cbar"), "unk")
            kw = dict(convert_zeros_to_nan=nan0, cbar_label="phase")
            kw.update(dict(class_legend=L()) if own else dict(variable="mask"))
            sc.disp = None
            evs = sc.plot("change_plot_to_class_mask", cb, **kw)
            if evs is None:
                continue
            want = ([] if nan0 else ["clear"]) + legend
            first = 1 if nan0 else 0
            tk = [e for e in evs if e.data["name"] == "set_ticks"]
            tl = [e for e in evs if e.data["name"] == "set_ticklabels"]
            if not tk or not tl or not tk[-1].data["args"] or not tl[-1].data["args"]:
                o.unk("%s: ticks" % sc.label)
                continue
            sc.array("ticks", tk[-1].data["args"][0], A((len(want),), [float(first + i) for i in range(len(want))]), tk[-1])
            got = tl[-1].data["args"][0]
            names_ = [q.args[0] if isinstance(q, tm.T) and q.op == "c" else None for q in got.args] \
                if isinstance(got, tm.T) and got.op == "tup" else [None]
            if None in names_:
                o.unk("%s: tick labels" % sc.label)
            else:
                sc.given("tick labels", tuple(names_), tuple(want), tl[-1])
            cl = [e for e in evs if e.data["name"] in ("set_clim", "plt:set_clim")]
            if cl:
                lo, hi = [cl[-1].data["kw"].get(k) for k in ("vmin", "vmax")]
                for k, v, ref in (("vmin", lo, first - .5), ("vmax", hi, len(legend) + .5)):
                    v = v.args[0] if isinstance(v, tm.T) and v.op == "c" else v
                    if isinstance(v, (int, float)):
                        sc.given("colour %s" % k, float(v), ref, cl[-1])


# -- figures of the statistics package
def t_cfad(s, o, name):
    sc = Scene(s, o, name)
    for nm in ("plot_radar_CFAD", "plot_lidar_SR_CFAD"):
        if not has_func(s, ST, nm):
            o.unk(nm)
            continue
        ed, lv, cf = sc.arr("edges", (4,)), sc.arr("levels", (5,), [.24 + .48 * i for i in range(5)]), sc.arr("cfad", (5, 3))
        for kw in (dict(), dict(vmin=.01, vmax=.3), dict(vmin=.01), dict(vmax=.3), dict(cmap="jet")):
            evs = sc.stat(nm, ed, lv, cf, "no", **kw)
            if evs is None:
                continue
            r = only(sc, evs, "pcolormesh", 1)
            if not r:
                continue
            a = r[0].data["args"]
            sc.array("data", a[2], sc.A("cfad"), r[0])
            if "radar" in nm:
                sc.array("bin edges", a[0], sc.A("edges"), r[0])
            sc.array("level edges", a[1], A((6,), [.48 * i for i in range(6)]), r[0])
            a = sc.limits(r[0], kw.get("vmin"), kw.get("vmax"))
            span(sc, a, r[0])
            if "cmap" in kw:
                sc.given("cmap", r[0].data["kw"].get("cmap"), kw["cmap"], r[0])


def span(sc, a, e):
    """colour limits span something"""
    if a is None:
        return
    lo, hi = a.get("vmin"), a.get("vmax")
    lo, hi = [x.args[0] if isinstance(x, tm.T) and x.op == "c" else x for x in (lo, hi)]
    if all(isinstance(x, (int, float)) for x in (lo, hi)):
        sc.o.n("obligations")
        if lo >= hi:
            sc.find("limits", "draws every value in the same colour (limits %s to %s)" % (lo, hi), e)


QS = ["strat_q_subcolumns_" + x for x in ("cl", "ci", "pl", "pi")]


def t_stats(s, o, name):
    ds = ("subcolumn", "time", "lev", "ncol")
    sc = Scene(s, o, "E3SMv1" if name != "E3SMv1" else name, shape={"ncol": 2})
    if (sc.td, sc.hd) != ("time", "lev"):
        o.unk("dimension names")
        return
    four = ["sub_col_Ze_att_tot", "sub_col_beta_att_tot", "sub_col_Ze_tot", "sub_col_beta_p_tot"] + QS
    for n in four:
        sc.add(n, ds)
    sc.add("height", ("time", "lev", "ncol"))
    s.setattr(sc.m, "z_field", K("height"))
    atb, mol = sc.arr("atb", (2, 3, 4, 2)), sc.arr("mol", (2, 3, 4, 2))
    P = "plot_every_subcolumn_timeseries_"
    spread = lambda f, col: A((4, 6), [pick(f, 3, col).at((i, t, h)) for h in range(4) for t in range(3) for i in range(2)])
    both = lambda a, b: A(a.sh, [x + y for x, y in zip(a.d, b.d)])
    times = lambda a, k: A(a.sh, [x * k for x in a.d])
    fig = {
        "radarlidarsignal": ([], lambda c_: [("Radar", spread(sc.A("sub_col_Ze_att_tot"), c_)),
                                             ("Lidar", spread(sc.A("sub_col_beta_att_tot"), c_))]),
        "nonatt_radarlidarsignal": ([], lambda c_: [("Radar", spread(sc.A("sub_col_Ze_tot"), c_)),
                                                    ("Lidar", spread(sc.A("sub_col_beta_p_tot"), c_))]),
        "SR": ([atb, mol], lambda c_: [("SR", A((4, 6), [x / y for x, y in zip(
            spread(sc.A("atb"), c_).d, spread(sc.A("mol"), c_).d)]))]),
        "mixingratio": ([], lambda c_: [(q, times(spread(sc.A(q), c_), 1000.)) for q in QS]),
        "mixingratio_cloud_precipitation": ([], lambda c_: [
            ("Cloud", times(both(spread(sc.A(QS[0]), c_), spread(sc.A(QS[1]), c_)), 1000.)),
            ("Precipitation", times(both(spread(sc.A(QS[2]), c_), spread(sc.A(QS[3]), c_)), 1000.))]),
    }
    km = sc.A("height")
    for nm, (args, ref) in fig.items():
        if not has_func(s, ST, P + nm):
            o.unk(P + nm)
            continue
        for kw in (dict(), dict(vmin=.01, vmax=.3), dict(cmap="jet")):
            for col in (0, 1):
                evs = sc.stat(P + nm, sc.m, *(args + [col, "no"]), fig_path="p", fig_name="f", **kw)
                if evs is None:
                    continue
                want = ref(col)
                r = only(sc, evs, "pcolormesh", len(want))
                if not r:
                    continue
                labels = [e for e in evs if e.data["name"] == "text"]
                for k, (e, (lab, z)) in enumerate(zip(r, want)):
                    a = e.data["args"]
                    sc.array("data (panel %s)" % lab, a[2], z, e)
                    y = A((4, 6), [km.at((t, h, col)) / 1000. for h in range(4) for t in range(3) for i in range(2)])
                    sc.array("heights (panel %s)" % lab, a[1], y, e)
                    # the columns of one time step stand side by side around it
                    n_ = [(i + 1) / 2. for i in range(6)]
                    X = A((4, 6), [TIMES[0] + (q - 1) * (TIMES[1] - TIMES[0]) for h in range(4) for q in n_])
                    sc.array("times (panel %s)" % lab, a[0], X, e)
                    sc.o.n("obligations")
                    if len(labels) == len(want) and isinstance(labels[k].data["args"][2], str) and \
                            lab not in labels[k].data["args"][2]:
                        sc.find("panel", "labels the panel of %s %r" % (lab, labels[k].data["args"][2]), labels[k])
                    b = sc.limits(e, kw.get("vmin") if nm.startswith("mixing") or nm == "SR" else None,
                                  kw.get("vmax") if nm.startswith("mixing") or nm == "SR" else None)
                    if nm != "SR":
                        span(sc, b, e)


def main(tier):
    return base.main(
        "C32", tasks, fn,
        "Every display method and statistics figure is interpreted abstractly on datasets with known dimensions and "
        "symbolic elements, for its option variants; the array terms that reach matplotlib (coordinates, data, mask, "
        "curves, colour limits, ranges, labels) are compared element by element with the selection asked for.",
        ["matplotlib draws what it is given", "time and level coordinates are sorted and unique"], tier=tier)
