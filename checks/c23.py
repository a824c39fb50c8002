"""C23: undefined, clear and below-ground samples stay out of the statistics."""
from . import base
from .scen import *  # noqa
from engine import elem
from engine.elem import A, Ev, Unread, NANV, indexes, lift, same, isnan
from engine.ident import _rnd
from engine.values import *  # noqa

AG = "emc2.statistics_LLNL.statistical_aggregation"
OUT = "emc2.statistics_LLNL.statistical_output"
FILE = "emc2/statistics_LLNL/statistical_aggregation.py"
REGRID = "COSP_CHANGE_VERTICAL_GRID"
NS, NT, NL, NG, NC = 3, 2, 4, 5, 2
SC = {"ns": NS, "nt": NT, "Nl": NL, "Ng": NG, "nc": NC, "col": 1}
ED = [-1., .01, 1.2, 3.]
BIG = 1e15


def tasks(tier):
    n = 2 if tier == "quick" else 6
    out = []
    for k in range(n):
        out += [("sr", k), ("ze", k), ("cf", k), ("cfad", "get_cfaddBZ", k), ("cfad", "get_cfad_SR", k),
                ("level", k), ("column", k), ("signals", k), ("step", k)]
    return out + [("save",)]


def fn(s, task, o):
    globals()["t_" + task[0]](s, o, *task[1:])


# -- values of this package -------------------------------------------------------------------------------------

def where(s, name, mod=AG):
    try:
        f = s.get(mod, name)
        return (mod.replace(".", "/") + ".py", f.node.lineno, name)
    except Exception:
        return (mod.replace(".", "/") + ".py", 0, name)


def arr(s, name, rank):
    t = tm.mk("arg", name)
    s.leaf_shapes[t] = tuple(tm.mk("dim", t, k) for k in range(rank))
    return Arr(s.new(Buf(t, name)))


def scal(n):
    return Num(tm.mk("par", n), "scalar")


def hook(s):
    """the regridder as an opaque function of its arguments"""
    def h(self, f, args, kw, node):
        d = dict(zip([x.arg for x in f.node.args.args], args))
        d.update(kw)
        t = tm.mk("regrid", *[self.term(d[k]) for k in ("y", "zfull", "zhalf", "newgrid_bot", "newgrid_top")],
                  self.term(d.get("lunits", K(False))),
                  *[self.term(d[k]) for k in ("Npoints", "Ncolumns", "Nlevels", "Nglevels")])
        return Arr(self.new(Buf(t, "regrid")))
    s.hooks[AG + "." + REGRID] = h


def sentinels(s, o):
    """numbers the regridder itself writes into its result"""
    s.hooks.pop(AG + "." + REGRID, None)
    r = run(s, AG, REGRID, [scal("nt"), scal("ns"), scal("Nl"), arr(s, "zf", 2), arr(s, "zh", 2), arr(s, "y", 3),
                            scal("Ng"), arr(s, "nb", 1), arr(s, "ntop", 1)], {})
    if r.raised or r.value is None:
        o.unk("regridder: %s" % (r.raised,))
        return None, None
    t = s.term(r.value)
    out = set()
    for x in tm.nodes([t]):
        if x.op in ("store", "where", "phi"):
            for y in x.args[2 if x.op == "store" else 1:]:
                if tm.isnum(y) and abs(y.args[0]) >= BIG:
                    out.add(float(y.args[0]))
    return sorted(out), t


def undef(x):
    return x is None or isnan(x) or abs(x) >= BIG


class P(Ev):
    sent = (-1e30, -1e20)
    mode = 0

    def o_regrid(self, t, y, zf, zh, nb, ntop, lu, *n):
        y, zf, zh, nb, ntop = [lift(self(x)) for x in (y, zf, zh, nb, ntop)]
        n = [self.int(x) for x in n]
        return regrid(self, y, zf, zh, nb, ntop, n, bool(self(lu)))

    def o_deepcopy(self, t, a, *r):
        return self(a)


def regrid(e, y, zf, zh, nb, ntop, n, lu):
    """an arbitrary regridder: every value depends on the profile, its heights and the new bin; below-ground bins
    and bins without data hold the regridder's own flags"""
    if len(y.sh) != 3 or n != [y.sh[0], y.sh[1], y.sh[2], len(nb.d)] or len(ntop.d) != len(nb.d):
        raise Wrong("regridder called with sizes %s for an array of shape %s" % (n, y.sh))
    if zf.sh != (y.sh[0], y.sh[2]) or zh.sh != zf.sh:
        raise Wrong("regridder called with heights of shape %s for an array of shape %s" % (zf.sh, y.sh))
    out = []
    for i, j, k in indexes((y.sh[0], y.sh[1], len(nb.d))):
        prof = tuple("u" if undef(v) else round(v, 9) for v in [y.at((i, j, l)) for l in range(y.sh[2])])
        hz = tuple(round(a.at((i, l)), 9) for a in (zf, zh) for l in range(y.sh[2]))
        u = _rnd(e.seed, "flag", (prof, k))
        if k == 0 and e.sent:
            out.append(e.sent[int(_rnd(e.seed, "gr", hz) * len(e.sent))])
        elif u < .25 and e.sent:
            out.append(e.sent[int(u * 4 * len(e.sent))])
        else:
            out.append((-1 if lu else 1) * (.1 + _rnd(e.seed, "R", (prof, hz, k, round(nb.d[k], 9), round(ntop.d[k], 9)))))
    return A((y.sh[0], y.sh[1], len(nb.d)), out)


class Wrong(Exception):
    pass


def point(k, sent=(-1e30, -1e20)):
    def gaps(nm, sh):
        def f(e):
            d = []
            for ix in indexes(sh):
                x = _rnd(e.seed, nm, ix)
                d.append(NANV if x < .2 else x)
            return A(sh, d)
        return f

    def full(nm, sh, up=None):
        def f(e):
            d = [_rnd(e.seed, nm, ix) for ix in indexes(sh)]
            if up is not None:
                d = [x * .5 + ix[up] for x, ix in zip(d, indexes(sh))]
            return A(sh, d)
        return f
    vals = {"atot": gaps("atot", (NS, NT, NL, NC)), "amol": full("amol", (NS, NT, NL, NC)),
            "ze": gaps("ze", (NS, NT, NL, NC)), "zf": full("zf", (NT, NL, NC), 1), "zh": full("zh", (NT, NL, NC), 1),
            "nb": full("nb", (NG,), 0), "ntop": full("ntop", (NG,), 0), "lev": full("lev", (NG,), 0),
            "edges": A((len(ED),), ED)}
    e = P(100 + k, {}, SC, values=vals)
    e.sent = tuple(sent)
    return e


def read(s, o, r, name, k, sent=(-1e30, -1e20)):
    """value of the extracted result, or None when it cannot be read"""
    if r.raised or r.value is None:
        o.unk("%s: %s" % (name, r.raised))
        return None, None
    e = point(k, sent)
    try:
        return lift(e(s.term(r.value))), e
    except Wrong as x:
        o.find("%s:call" % name, "%s: %s" % (name, x), where(s, name))
    except (Unread, RecursionError) as x:
        o.unk("%s: %s" % (name, x))
    return None, None


def ok(fnm, x, ref):
    """equal, arrays of which only the fill is known padded with it"""
    if isinstance(x, elem.G) and x.sh != ref.sh and len(x.sh) == len(ref.sh) and all(a <= b for a, b in
                                                                                     zip(x.sh, ref.sh)):
        x = x.grown(ref.sh)
    return same(x, ref)


def first(x, ref):
    x, ref = lift(x), lift(ref)
    if x.sh != ref.sh:
        return "shape %s where %s is expected" % (x.sh, ref.sh)
    for ix in indexes(ref.sh):
        if not same(x.at(ix), ref.at(ix)):
            return "element %s is %s where %s is expected" % (ix, show(x.at(ix)), show(ref.at(ix)))
    return ""


def show(v):
    return "%.6g" % v if isinstance(v, (int, float)) else str(v)


# -- scattering ratio and reflectivity on the new grid -----------------------------------------------------------

def regridded(e, y):
    """the quantity y[sub, time, lev, col] on the new grid, flags turned into NaN"""
    n = A((NS, NT, NG, NC), [None] * (NS * NT * NG * NC))
    zf, zh = [A((NT, NL, NC), e.values[x](e).d) for x in ("zf", "zh")]
    nb, ntop = e.values["nb"](e), e.values["ntop"](e)
    for c in range(NC):
        yy = A((NT, NS, NL), [y.at((j, i, l, c)) for i, j, l in indexes((NT, NS, NL))])
        z1, z2 = [A((NT, NL), [z.at((i, l, c)) for i, l in indexes((NT, NL))]) for z in (zf, zh)]
        r = regrid(e, yy, z1, z2, nb, ntop, [NT, NS, NL, NG], False)
        for i, j, k in indexes((NS, NT, NG)):
            v = r.at((j, i, k))
            n.d[((i * NT + j) * NG + k) * NC + c] = NANV if undef(v) else v
    return n


def t_sr(s, o, k):
    nm = "calculate_SR"
    se, _ = sentinels(s, o)
    if se is None or not has_func(s, AG, nm):
        return
    hook(s)
    r = run(s, AG, nm, [arr(s, "atot", 4), arr(s, "amol", 4), scal("ns"), scal("nt"), arr(s, "zf", 3),
                        arr(s, "zh", 3), scal("ns"), scal("nt"), scal("Nl"), scal("Ng"), scal("nc"),
                        arr(s, "nb", 1), arr(s, "ntop", 1)], {})
    x, e = read(s, o, r, nm, k, se)
    if x is None:
        return
    a, b = regridded(e, e.values["atot"](e)), regridded(e, e.values["amol"](e))
    ref = elem.ew(elem.num(lambda p, q: p / q), a, b)
    o.n("obligations", len(ref.d))
    o.n("samples", len(ref.d))
    if not ok(nm, x, ref):
        bad = [ix for ix in indexes(ref.sh) if x.sh == ref.sh and isnan(ref.at(ix)) and not isnan(x.at(ix))]
        if bad:
            o.find("SR:undefined", "calculate_SR: a bin the regridder flags (it writes %s) comes out as the number %s "
                   "instead of NaN" % (", ".join("%g" % v for v in se), show(x.at(bad[0]))), where(s, nm))
        else:
            o.find("SR:value", "calculate_SR is not the regridded total over the regridded molecular backscatter of "
                   "the same subcolumn, time and column: " + first(x, ref), where(s, nm))


def t_ze(s, o, k):
    nm = "get_regridded_ze_att_tot"
    se, _ = sentinels(s, o)
    if se is None or not has_func(s, AG, nm):
        return
    hook(s)
    r = run(s, AG, nm, [arr(s, "ze", 4), arr(s, "zf", 3), arr(s, "zh", 3), scal("ns"), scal("nt"), scal("Ng"),
                        scal("nc"), arr(s, "nb", 1), arr(s, "ntop", 1), scal("ns"), scal("nt"), scal("Nl")], {})
    x, e = read(s, o, r, nm, k, se)
    if x is None:
        return
    ref = regridded(e, e.values["ze"](e))
    o.n("obligations", len(ref.d))
    if not ok(nm, x, ref):
        if any(x.sh == ref.sh and isnan(ref.at(ix)) and not isnan(x.at(ix)) for ix in indexes(ref.sh)):
            o.find("Ze:undefined", "get_regridded_ze_att_tot: a bin the regridder flags (it writes %s) is not NaN in "
                   "the result" % ", ".join("%g" % v for v in se), where(s, nm))
        elif x.sh == ref.sh and all(isnan(ref.at(ix)) or same(x.at(ix), -ref.at(ix)) for ix in indexes(ref.sh)):
            o.unk("regridded in linear units")
        else:
            o.find("Ze:value", "get_regridded_ze_att_tot is not the regridded reflectivity of the same subcolumn, "
                   "time and column: " + first(x, ref), where(s, nm))


# -- counts ------------------------------------------------------------------------------------------------------

def signal(nm, sh, cuts):
    """values on both sides of every cut, on the closed side of every bin, undefined ones, flags, partial flags"""
    def f(e):
        d = []
        for ix in indexes(sh):
            u = _rnd(e.seed, nm, ix)
            v = _rnd(e.seed, nm + "'", ix)
            if u < .12:
                d.append(NANV)
            elif u < .2:
                d.append(-1e30 if v < .5 else -3.7e29)
            else:
                c = cuts[int(v * len(cuts))]
                w = _rnd(e.seed, nm + "''", ix)
                d.append(c + (w - .5) * .3 * max(abs(c), .01))
        return A(sh, d)
    return f


def t_cf(s, o, k):
    nm = "calculate_lidar_CF"
    if not has_func(s, AG, nm):
        return
    r = run(s, AG, nm, [arr(s, "sr", 4), scal("nt"), scal("Ng"), scal("nc")], {})
    if r.raised or r.value is None:
        o.unk("%s: %s" % (nm, r.raised))
        return
    for q in range(4):
        e = point(4 * k + q)
        sh = (NS, NT, NG, NC)
        e.values["sr"] = sg = signal("sr", sh, (.01, 5.) if q else (-1e30, -1e30, 5.))
        try:
            x = lift(e(s.term(r.value)))
        except (Unread, RecursionError) as z:
            o.unk("%s: %s" % (nm, z))
            return
        v = sg(e)
        d = []
        for t, l, c in indexes((NT, NG, NC)):
            col = [v.at((i, t, l, c)) for i in range(NS)]
            n, m = sum(1 for y in col if y > 5.), sum(1 for y in col if y > .01)
            d.append(n / m if m else NANV)
        ref = A((NT, NG, NC), d)
        o.n("obligations", len(d))
        if not ok(nm, x, ref):
            o.find("CF:value", "calculate_lidar_CF is not the share of subcolumns with SR > 5 among those with SR > "
                   "0.01 (NaN when there is none): " + first(x, ref), where(s, nm))
            return


def bins(col, n):
    return [sum(1 for y in col if ED[b] <= y < ED[b + 1]) / n for b in range(len(ED) - 1)]


def edge_signal(nm, sh):
    base_ = signal(nm, sh, ED)

    def f(e):
        a = base_(e)
        d = list(a.d)
        for n, ix in enumerate(indexes(sh)):
            u = _rnd(e.seed, nm + "e", ix)
            if u < .25:
                d[n] = ED[int(u * 4 * len(ED))]
        return A(sh, d)
    return f


def t_level(s, o, k):
    nm = "cal_cfad_radar_40levels"
    if not has_func(s, AG, nm):
        return
    r = run(s, AG, nm, [scal("ns"), arr(s, "lev", 1), arr(s, "edges", 1), arr(s, "a", 2)], {})
    if r.raised or r.value is None:
        o.unk("%s: %s" % (nm, r.raised))
        return
    e = point(k)
    e.values["a"] = sg = edge_signal("a", (NS, NG))
    try:
        x = lift(e(s.term(r.value)))
    except (Unread, RecursionError) as z:
        o.unk("%s: %s" % (nm, z))
        return
    v = sg(e)
    ref = A((NG, len(ED) - 1), [y for l in range(NG) for y in bins([v.at((i, l)) for i in range(NS)], NS)])
    zero = elem.ew(lambda p: 0. if isnan(p) else p, x.grown(ref.sh) if isinstance(x, elem.G) and
                   len(x.sh) == 2 and all(p <= q for p, q in zip(x.sh, ref.sh)) else x)
    o.n("obligations", len(ref.d))
    if not ok(nm, zero, ref):
        o.find("CFAD:level", "cal_cfad_radar_40levels does not count, per level, the samples with edge <= value < next "
               "edge over the number of subcolumns: " + first(zero, ref), where(s, nm))


def t_cfad(s, o, nm, k):
    if not has_func(s, AG, nm):
        return
    r = run(s, AG, nm, [arr(s, "edges", 1), arr(s, "lev", 1), scal("nt"), scal("ns"), arr(s, "sig", 4),
                        scal("col")], {})
    if r.raised or r.value is None:
        o.unk("%s: %s" % (nm, r.raised))
        return
    e = point(k)
    e.values["sig"] = sg = edge_signal("sig", (NS, NT, NG, NC))
    try:
        x = lift(e(s.term(r.value)))
    except (Unread, RecursionError) as z:
        o.unk("%s: %s" % (nm, z))
        return
    v = sg(e)
    d = []
    for l in range(NG):
        per = [bins([v.at((i, t, l, 1)) for i in range(NS)], NS) for t in range(NT)]
        d += [sum(p[b] for p in per) / NT for b in range(len(ED) - 1)]
    ref = A((NG, len(ED) - 1), d)
    o.n("obligations", len(d))
    if not ok(nm, x, ref):
        o.find("CFAD:value", "%s is not the frequency of the chosen column's samples per level and bin, undefined "
               "samples in no bin: %s" % (nm, first(x, ref)), where(s, nm))


# -- the signals taken from the model ----------------------------------------------------------------------------

F4 = ("sub_col_beta_att_tot", "sub_col_Ze_att_tot")
F3 = ("sigma_180_vol", "tau", "Z3")


def with_fields(s):
    m = model(s, "E3SMv1")
    for f in F4:
        add_input(s, m, f, ("subcolumn", "time", "lev", "ncol"))
    for f in F3:
        add_input(s, m, f, ("time", "lev", "ncol"))
    for f in ("subcolumn", "time", "ncol"):
        add_input(s, m, f, (f,))
    return m


def fields(k):
    e = point(k)
    for f in F4:
        e.shapes[f] = (NS, NT, NL, NC)
    for f in F3:
        e.shapes[f] = (NT, NL, NC)
    for n, f in ((NS, "subcolumn"), (NT, "time"), (NC, "ncol")):
        e.shapes[f] = (n,)
    e.dims.update(subcolumn=NS, time=NT, lev=NL, ncol=NC)
    e.values["Z3"] = lambda q: A((NT, NL, NC), [1000. * ix[1] + 700 * _rnd(q.seed, "Z3", ix)
                                                for ix in indexes((NT, NL, NC))])
    return e


WHAT = ("total attenuated backscatter", "attenuated molecular backscatter", "height in km", "half-level height",
        "attenuated reflectivity")


def halves(z):
    return [None] + [(a + b) / 2 for a, b in zip(z, z[1:])]


def judge(s, o, nm, k, r, cells):
    """cells(e) -> per output the expected array; the first half level only has to lie below the first level"""
    if r.raised or not isinstance(r.value, (Tup,)):
        o.unk("%s: %s" % (nm, r.raised))
        return
    if len(r.value.items) != 5:
        o.unk("%s returns %d values" % (nm, len(r.value.items)))
        return
    for n, (v, what) in enumerate(zip(r.value.items, WHAT)):
        e = fields(k)
        try:
            x = lift(e(s.term(v)))
        except (Unread, RecursionError) as z:
            o.unk("%s %s: %s" % (nm, what, z))
            continue
        ref = lift(cells(e)[n])
        o.n("obligations", len(ref.d))
        if n != 3:
            if not same(x, ref):
                o.find("signal:" + what, "%s: the %s it returns is not that of the subcolumn, time and column asked "
                       "for: %s" % (nm, what, first(x, ref)), where(s, nm))
            continue
        if x.sh != ref.sh:
            o.find("signal:" + what, "%s: %s" % (nm, first(x, ref)), where(s, nm))
            continue
        z = cells(e)[2]
        for ix in indexes(ref.sh):
            w, g = ref.at(ix), x.at(ix)
            if w is None and not (g is not None and g <= z.at(ix)) or w is not None and not same(g, w):
                o.find("half levels", "%s: layer %s is given the lower edge %s km; the layer holding the sample at "
                       "%s km starts %s (the regridder takes half level n as the bottom of layer n)" %
                       (nm, ix, show(g), show(z.at(ix)), "below it" if w is None else "at %s km" % show(w)),
                       where(s, nm))
                break


def t_column(s, o, k):
    nm = "get_ATB_ATBmol"
    if not has_func(s, AG, nm):
        return
    m = with_fields(s)
    r = run(s, AG, nm, [m, scal("i"), scal("j"), scal("k")], {})

    def cells(e):
        e.scalars = dict(e.scalars, i=2, j=1, k=0)
        b, ze, sg, tau, z = [e.leaf(f) for f in F4 + F3]
        zz = [z.at((1, l, 0)) / 1000 for l in range(NL)]
        return (A((NL,), [b.at((2, 1, l, 0)) for l in range(NL)]),
                A((NL,), [sg.at((1, l, 0)) * tau.at((1, l, 0)) for l in range(NL)]),
                A((NL,), zz), A((NL,), halves(zz)), A((NL,), [ze.at((2, 1, l, 0)) for l in range(NL)]))

    global fields
    f0 = fields

    def fields_(k):
        e = f0(k)
        e.scalars = dict(e.scalars, i=2, j=1, k=0)
        return e
    fields = fields_
    try:
        judge(s, o, nm, k, r, cells)
    finally:
        fields = f0


def t_signals(s, o, k):
    nm = "get_radar_lidar_signals"
    if not has_func(s, AG, nm):
        return
    m = with_fields(s)
    r = run(s, AG, nm, [m], {})

    def cells(e):
        b, ze, sg, tau, z = [e.leaf(f) for f in F4 + F3]
        zk = A(z.sh, [x / 1000 for x in z.d])
        h = []
        for t, l, c in indexes(z.sh):
            h.append(halves([zk.at((t, q, c)) for q in range(NL)])[l])
        return (b, A(b.sh, [sg.at(ix[1:]) * tau.at(ix[1:]) for ix in indexes(b.sh)]), zk, A(z.sh, h), ze)
    judge(s, o, nm, k, r, cells)


# -- the regridder: one step of its walk through the old layers ---------------------------------------------------

def whiles(t):
    """the while loops of a term: condition -> per state symbol (init, next)"""
    out = {}
    for x in tm.nodes([t]):
        if x.op == "loop" and x.args[0].op == "while":
            out.setdefault(x, [x.args[k:k + 3] for k in range(2, len(x.args), 3)])
    return out


def t_step(s, o, k):
    nm = REGRID
    se, t = sentinels(s, o)
    if se is None:
        return
    site = where(s, nm)
    ws = whiles(t)
    if not ws:
        o.unk("no walk through the old layers")
        return
    for w, tri in ws.items():
        step(s, o, k, w, tri, t, site)
        reset(s, o, k, w, t, site)
    mean(s, o, k, t, site)
    ground(s, o, k, t, site)


NLV = 5


def heights(e, far):
    """old layer edges (increasing) and one new layer"""
    zh, z = [], 0.
    for l in range(NLV):
        z += .2 + _rnd(e.seed, "dz", (l, far))
        zh.append(z)
    zf = [a + .5 * (b - a) for a, b in zip(zh, zh[1:])]
    zf.append(zh[-1] + .3)
    return zh, zf


def enclosing(whole, w):
    """loop level -> name of the bound, for the range loops a term runs in"""
    out = {}
    for x in tm.nodes([whole]):
        if x.op == "loop" and x.args[0].op == "range" and w in tm.nodes([x.args[j + 2] for j in
                                                                        range(2, len(x.args), 3)]):
            out[x.args[1].args[0]] = x.args[0].args[1]
    return out


DIMS = {"nt": 2, "ns": 2, "Ng": 2, "Nl": NLV, "nc": 1}
SHAPE = (2, 2, 2)


def scene(k, whole, w, given, r0):
    """heights of two times, values of two subcolumns; the loops around w stand at their second round"""
    e = P(k, {}, dict(DIMS), values={})
    e.hs = [heights(e, i) for i in range(2)]
    e.lo = _rnd(e.seed, "lo", 0) * e.hs[1][1][-1]
    e.hi = e.lo + .05 + 1.5 * _rnd(e.seed, "hi", 0)
    e.values.update(zh=A((2, NLV), [v for h in e.hs for v in h[0]]), zf=A((2, NLV), [v for h in e.hs for v in h[1]]),
                    y=A((2, 2, NLV), [.5 + _rnd(e.seed, "y", n) for n in range(4 * NLV)]),
                    nb=A((2,), [-9., e.lo]), ntop=A((2,), [-8., e.hi]))
    setup_syms(e, w, given, r0)
    for lv, b in enclosing(whole, w).items():
        e.env[tm.mk("bv", lv)] = 1
    return e


def step(s, o, k, w, tri, whole, site):
    cond = w.args[0].args[0] if w.args[0].args else None
    head = w.args[1]
    syms = {m: (i, p) for m, i, p in tri}
    # the counter: the state whose next value is itself plus a constant
    cnt = [m for m, (i, p) in syms.items() if p.op == "add" and m in p.args and len(p.args) == 2 and
           tm.isnum([x for x in p.args if x is not m][0])]
    if len(cnt) != 1 or cond is None or cnt[0] not in tm.nodes([cond]):
        o.unk("walk counter")
        return
    cnt = cnt[0]
    inc = [x for x in syms[cnt][1].args if x is not cnt][0].args[0]
    for trial in range(30):
        at = int(_rnd(1000 * k + trial, "lev", 0) * (NLV + .999)) - 1 if trial >= 4 else NLV - 1 - (trial % 2)
        r0 = .25 + _rnd(trial, "r0", 0)
        e = scene(1000 * k + trial, whole, w, {cnt: at, syms[cnt][0]: at}, r0)
        zh, zf = e.hs[1]
        top = zh[1:] + [2 * zf[-1] - zh[-1]]
        try:
            go = e(cond)
        except Unread as z:
            o.unk("walk condition: %s" % z)
            return
        nxt = at + inc
        o.n("obligations")
        if go and not -1 < nxt < NLV:
            o.find("walk:bounds", "%s goes on to old layer %d of a profile with %d layers (an IndexError, or the "
                   "profile's other end, once the new grid reaches past the old one)" % (REGRID, nxt, NLV), site)
            return
        if not go:
            if nxt < NLV and at >= -1:
                o.find("walk:stops", "%s stops before old layer %d of %d" % (REGRID, nxt, NLV), site)
                return
            continue
        ov = max(0., min(top[nxt], e.hi) - max(zh[nxt], e.lo))
        m = head
        if m is cnt:
            continue
        try:
            got = e(syms[m][1])
        except Unread as z:
            o.unk("walk step: %s" % z)
            return
        was = e.env.get(m)
        if not isinstance(was, A):
            if not isinstance(got, (int, float)):
                o.unk("walk step value")
                return
            if not any(same(got, r0 + q, 1e-7) for q in (ov, 1 if ov > 0 else 0)):
                if same(got, r0):
                    o.find("walk:weight", "%s: an old layer overlapping the new one by %.4g km adds nothing to %s" %
                           (REGRID, ov, m.args[1]), site)
                else:
                    o.find("walk:weight", "%s: passing an old layer overlapping the new one by %.4g km adds %.4g to "
                           "its sum of weights" % (REGRID, ov, got - r0), site)
                return
            continue
        if len(was.sh) != 3:
            continue
        if not isinstance(got, A) or got.sh != was.sh:
            o.unk("walk step shape")
            return
        for ix in indexes(was.sh):
            add = ov * e.values["y"].at((ix[0], ix[1], nxt)) if (ix[0], ix[2]) == (1, 1) else 0.
            if not same(got.at(ix), r0 + add, 1e-7):
                o.find("walk:value", "%s: an old layer overlapping the new one by %.4g km adds %.4g to the weighted sum "
                       "of time %d, subcolumn %d, new layer %d, where overlap times value is %.4g (second time, second "
                       "new layer)" % ((REGRID, ov, got.at(ix) - r0) + ix + (add,)), site)
                return


def ground(s, o, k, t, site):
    """exactly the new layers below the lowest half level of their own time become flags"""
    x = t
    while x.op == "loop":
        p = [x.args[j + 2] for j in range(2, len(x.args), 3)]
        if any(w.op == "loop" and w.args[0].op == "while" for w in tm.nodes(p)):
            break
        x = [x.args[j + 1] for j in range(2, len(x.args), 3) if x.args[j] is x.args[1]][0]
    if x is t or x.op != "loop":
        o.unk("below-ground pass not found")
        return
    e = P(50 + k, {}, dict(DIMS, Ng=4))
    hs = [[1.5, 2, 3, 4, 5], [.4, 2, 3, 4, 5]]
    e.values.update(zh=A((2, NLV), sum(hs, [])), zf=A((2, NLV), [v + .3 for v in sum(hs, [])]),
                    y=A((2, 2, NLV), [1.] * 4 * NLV), nb=A((4,), [0., .3, 1., 2.]), ntop=A((4,), [.3, 1., 2., 3.]))
    was = A((2, 2, 4), [.1 + _rnd(k, "was", n) for n in range(16)])
    e.env[x] = was
    try:
        g = lift(e(t))
    except Unread as z:
        o.unk("below-ground pass: %s" % z)
        return
    if g.sh != was.sh:
        o.unk("below-ground pass shape")
        return
    for ix in indexes(was.sh):
        o.n("obligations")
        low = e.values["ntop"].at((ix[2],)) <= hs[ix[0]][0]
        if low and not undef(g.at(ix)):
            o.find("ground:kept", "%s: a new layer below the ground of its own time is given the value %s" % (
                REGRID, show(g.at(ix))), site)
            return
        if not low and not same(g.at(ix), was.at(ix)):
            o.find("ground:lost", "%s: a new layer above the ground of its own time loses its value" % REGRID, site)
            return


def ranks(t):
    """loop symbols used as arrays -> rank"""
    out = {}
    for x in tm.nodes([t]):
        if x.op in ("idx", "store"):
            b = x.args[0]
            while b.op == "store":
                b = b.args[0]
            if b.op == "bmu":
                out[b] = max(out.get(b, 0), len(x.args[1].args) if x.args[1].op == "tup" else 1)
    return out


def setup_syms(e, t, given, r0):
    rk = ranks(t)
    # an array carried from one loop into the next has the same rank throughout
    more = True
    while more:
        more = False
        for x in tm.nodes([t]):
            if x.op == "loop":
                for j in range(2, len(x.args), 3):
                    m, i, p = x.args[j:j + 3]
                    for q in (i, p):
                        if q.op == "bmu":
                            for u, v in ((m, q), (q, m)):
                                if u in rk and v not in rk:
                                    rk[v] = rk[u]
                                    more = True
    for x in tm.nodes([t]):
        if x.op == "bv":
            e.env[x] = 0
        elif x.op == "bmu":
            k = rk.get(x, 0)
            e.env[x] = A(SHAPE, [r0] * 8) if k == 3 else A((NLV,), [0.] * NLV) if k == 1 else r0 if not k else None
            if e.env[x] is None:
                del e.env[x]
    e.env.update({x: v for x, v in given.items() if x.op == "bmu"})


def mean(s, o, k, t, site):
    """the value given to a new layer: the weighted mean, or a flag when no old layer overlaps it"""
    r3 = rank3(t)
    best = None
    for x in tm.nodes([t]):
        if x.op == "loop" and x.args[0].op == "range":
            p = [x.args[j + 2] for j in range(2, len(x.args), 3) if x.args[j] is x.args[1]]
            ins = [w for w in tm.nodes(p) if w.op == "loop" and w.args[0].op == "while"]
            if len(ins) >= 2 and any(w.args[1] in r3 for w in ins):
                n = len(tm.nodes([x]))
                if best is None or n < best[0]:
                    best = (n, p[0], ins)
    if best is None:
        o.unk("layer mean not found")
        return
    n, p, ins = best
    for n, wt, val in ((0, 0., 0.), (2, .7, .35)):
        e = scene(9 + k, t, ins[0], {}, 0.)
        setup_syms(e, t, {}, 0.)
        for lv in enclosing(t, ins[0]):
            e.env[tm.mk("bv", lv)] = 1
        for w in ins:
            h = w.args[1]
            nx = [w.args[q + 2] for q in range(2, len(w.args), 3) if w.args[q] is h][0]
            one = any(y.op == "add" and tm.isnum(y.args[0]) and y.args[0].args[0] == 1 and h in y.args
                      for y in tm.nodes([nx]))
            e.env[w] = A(SHAPE, [val] * 8) if h in r3 else n if one else wt
        try:
            g = e(p)
        except Unread as z:
            o.unk("layer mean: %s" % z)
            return
        if not isinstance(g, A) or g.sh != SHAPE:
            o.unk("layer mean shape")
            return
        g = g.at((1, 1, 1))
        o.n("obligations")
        if n == 0 and not undef(g):
            o.find("bin:empty", "%s: a new layer above the ground that no old layer overlaps is given the "
                   "value %s instead of an undefined flag" % (REGRID, show(g)), site)
        if n and not same(g, .5):
            o.find("bin:mean", "%s: a weighted sum of 0.35 over a total weight of 0.7 gives %s" % (
                REGRID, show(g)), site)


def rank3(t):
    e = P(1, {})
    setup_syms(e, t, {}, 0.)
    return set(x for x, v in e.env.items() if isinstance(v, A) and len(v.sh) == 3)


def reset(s, o, k, w, whole, site):
    """where the walk resumes for the next new layer, as a function of where it stopped"""
    if len(w.args) != 5:
        return
    outer = [x for x in tm.nodes([whole]) if x.op == "loop" and x.args[0].op == "range"]
    for x in outer:
        for j in range(2, len(x.args), 3):
            m, i, p = x.args[j:j + 3]
            if m.op != "bmu" or p is m or w not in tm.nodes([p]) or not any(
                    q is m for q in tm.nodes([w.args[3]])):
                continue
            if any(y.op in ("store", "regrid") for y in tm.nodes([p]) if y not in tm.nodes([w])):
                continue
            for stop in range(0, NLV):
                e = P(7, {}, dict(DIMS))
                e.env[w] = stop
                try:
                    g = e(p)
                except Unread as z:
                    o.unk("walk resume: %s" % z)
                    return
                o.n("obligations")
                if g + 1 > max(stop - 1, 0):
                    o.find("walk:resume", "%s: a walk that stopped at old layer %d resumes at layer %d, so layer %d is "
                           "never looked at again although the next new layer can overlap it" %
                           (REGRID, stop, g + 1, max(stop - 1, 0)), site)
                    return
                if g + 1 < 0:
                    o.find("walk:resume", "%s: a walk that stopped at old layer %d resumes at layer %d (the top of the "
                           "profile)" % (REGRID, stop, g + 1), site)
                    return
            return


# -- file ---------------------------------------------------------------------------------------------------------

# per variable: the argument it holds, and the argument's axes
NAMES = {"CFAD_Radar": ("ze_cfad", ("cosp_ht", "cosp_ze")), "CFAD_SR": ("sr_cfad", ("cosp_ht", "cosp_sr")),
         "cloud_fraction": ("cf", ("time", "cosp_ht", "ncol"))}


def t_save(s, o):
    nm = "save_cfads_to_nc"
    if not has_func(s, OUT, nm):
        return
    m = with_fields(s)
    before = set(s.dsnode(m).vars)
    r = run(s, OUT, nm, [m, arr(s, "bins", 1), arr(s, "cf", 3), arr(s, "ze_cfad", 2), arr(s, "sr_cfad", 2),
                         K("out/"), K("x.nc")], {})
    if r.raised:
        o.unk("%s: %s" % (nm, r.raised))
        return
    ev = [e for e in r.events if e.kind == "to_netcdf"]
    if len(ev) != 1:
        o.unk("%s writes %d files" % (nm, len(ev)))
        return
    if set(s.dsnode(m).vars) != before:
        o.find("save:model", "%s adds %s to the model's own dataset" % (
            nm, ", ".join(sorted(set(s.dsnode(m).vars) - before))), ev[0])
    sn = s.node(ev[0].data["ds"])
    for v, (a, dims) in NAMES.items():
        o.n("obligations")
        if v not in sn.vars:
            if sn.auto is None:
                o.find("save:" + v, "%s writes no %s" % (nm, v), ev[0])
            else:
                o.unk("%s %s" % (nm, v))
            continue
        d = s.node(sn.vars[v])
        ls = sorted(set(x.args[0] for x in tm.nodes([s.view(d.buf, d.path)]) if x.op == "arg"))
        if ls and ls != [a]:
            o.find("save:" + v, "%s writes %s under the name %s" % (nm, ", ".join(ls), v), ev[0])
        dd = [x for x in (d.dims or ())]
        if dd and any(x in dims and dims.index(x) != q for q, x in enumerate(dd)):
            o.find("save-dims:" + v, "%s labels the axes of %s %s; they are %s" % (nm, v, tuple(dd), dims), ev[0])


def main(tier):
    return base.main(
        "C23", tasks(tier), fn,
        "The aggregation functions are interpreted once and each result is compared, as a formula over array elements, "
        "with the definition of the statistic: NaN samples, the flags the regridder writes, partly flagged averages and "
        "values on every edge stand in the argument arrays. The regridder's walk through the old layers is checked one "
        "step at a time: bounds, overlap weight, weighted sum, and where it resumes.",
        ["the regridder's results are arbitrary numbers except for the flags found in its own stores",
         "formulas are compared on index ranges of 2 to 5 per dimension"])
