"""C31: model readers deliver the state the simulator works on (units, derived fields, orientation)."""
import math

from . import base
from .scen import *  # noqa
from engine import ident, units
from engine import terms as tm
from engine.drive import raw_model, MODELS
from engine.values import *  # noqa

RD = 287.058
E3SM = ("E3SMv1", "E3SMv1_rain", "E3SMv1_1ice", "E3SMv3", "E3SMv3_rain", "E3SMv3_hybrid", "E3SMv3_hybrid2",
        "E3SMv3_lut", "CESM2")
WRF = ("WRF_morrison", "WRF_morrison_gr", "WRF_morrison_gr2", "WRF_nuwrf", "WRF_nssl")
OTHER = ("ModelE", "DHARMA", "DHARMA_pir")
RNG = {"P0": (9e4, 1.1e5), "PS": (6e4, 1.03e5), "hyam": (.01, .2), "hybm": (.05, .7), "T": (210., 305.),
       "P": (10., 3000.), "PB": (1e4, 1e5), "wrf:tk": (210., 305.), "p": (2000., 1e5)}


def tasks(tier):
    return [("state", m) for m in E3SM + WRF + OTHER] + [("order", m) for m in E3SM]


class P(ident.Point):
    def o_nanmin(self, t, a, *r):
        return self.bound_of(a, "min")

    def o_nanmax(self, t, a, *r):
        return self.bound_of(a, "max")

    o_np_nanmin = o_min_ = o_nanmin
    o_np_nanmax = o_nanmax

    def bound_of(self, a, what):
        key, f = self._lut(a)
        return f * self.limit(key.split(".")[-1], what)

    def table(self, xs, key):
        v = ident.Point.table(self, xs, key)
        return v * 10 ** (4 + 3 * ident._rnd(self.seed, key, "scale")) if key.endswith(".lambda") else v

    def limit(self, col, what):
        """limits of a table's axis; drawn so that values fall inside and outside"""
        u = ident._rnd(self.seed, "limit", col)
        lo = {"Fr": .2, "rho_r": .9, "q_norm": 3e-10}.get(col, .5) * (.5 + u)
        return lo if what == "min" else lo * 3

    def o_max(self, t, *a):
        if len(a) == 1:
            return self.bound_of(a[0], "max")
        return ident.Point.o_max(self, t, *a)

    def o_min(self, t, *a):
        if len(a) == 1:
            return self.bound_of(a[0], "min")
        return ident.Point.o_min(self, t, *a)


def names(s, m, attr):
    f = s.field(m, attr)
    if isinstance(f, Ref):
        return {k: v.val for k, v in s.node(f.addr).items.items() if isinstance(v, K)}
    return {}


def e3sm_refs(s, m):
    p3 = str(getattr(s.field(m, "mcphys_scheme"), "val", "")) == "P3"
    N, re_, q, fr = [names(s, m, a) for a in ("N_field", "strat_re_fields", "q_names_stratiform", "strat_frac_names")]
    hyd = pylist(s, s.field(m, "hyd_types"))
    pf, tf = s.field(m, "p_field").val, s.field(m, "T_field").val
    g = lambda n: (lambda p: p.leaf(n))                                         # noqa: E731
    pres = lambda p: (p.leaf("P0") * p.leaf("hyam") + p.leaf("PS") * p.leaf("hybm")) / 100      # noqa: E731
    rho = lambda p: pres(p) * 100 / (RD * p.leaf(tf))                             # noqa: E731
    out = {pf: ("hPa", pres), "rho_a": ("air density in kg m-3", rho)}
    for h in hyd:
        out[N[h]] = ("number concentration in cm-3", lambda p, h=h: p.leaf(N[h]) * rho(p) / 1e6)
        k = .5e6 if h.startswith("p") else 1.
        out[re_[h]] = ("effective radius in micron", lambda p, h=h, k=k: p.leaf(re_[h]) * k or float("nan"))
        if p3 and h == "ci":
            kw = {a: b.val for a, b in s.node(s.field(m, "p3_kws").addr).items.items() if isinstance(b, K)}
            qi = lambda p: p.leaf(q["ci"]) if p.leaf(q["ci"]) > 1e-18 else 0.            # noqa: E731
            qr = lambda p: p.leaf(kw["q_rim_name"]) if p.leaf(kw["q_rim_name"]) > 1e-18 else 0.   # noqa: E731
            Ni = lambda p: p.leaf(N["ci"]) * rho(p) / p.leaf(fr["ci"])                   # noqa: E731
            lut = isinstance(s.field(m, "interpobj"), Ref) if "interpobj" in s.node(m.addr).fields else False

            def clip(p, col, v):
                if not lut or v != v:
                    return v
                return min(max(v, p.limit(col, "min")), p.limit(col, "max"))
            Fr = lambda p: clip(p, "Fr", qr(p) / qi(p))                                   # noqa: E731
            rr = lambda p: clip(p, "rho_r", 0. if qr(p) == 0 else qr(p) / p.leaf(kw["rim_vol_name"]))   # noqa: E731
            qn = lambda p: clip(p, "q_norm", qi(p) / p.leaf(fr["ci"]) / Ni(p))            # noqa: E731
            out.update({q["ci"]: ("ice mixing ratio", qi), kw["q_rim_name"]: ("rime mixing ratio", qr),
                        kw["in_cld_Ni_name"]: ("in-cloud ice number in m-3", Ni),
                        "Fr": ("rime fraction", Fr), "rho_r": ("rime density", rr), "qi_norm": (
                            "ice mixing ratio per particle", qn)})
            if lut:
                lam = lambda p: p.table({"scat_table.p3_ice.Fr": Fr(p), "scat_table.p3_ice.rho_r": rr(p),    # noqa
                                         "scat_table.p3_ice.q_norm": qn(p)}, "scat_table.p3_ice.lambda")
                mu = lambda p: min(6., max(0., .076 * (lam(p) / 100) ** .8 - 2))         # noqa: E731
                out["lambda_ice"] = ("PSD slope", lam)
                out["mu_ice"] = ("PSD shape", mu)
                out[kw["N0_ice_name"]] = ("normalised PSD intercept",
                                          lambda p: lam(p) ** (mu(p) + 1) / math.gamma(mu(p) + 1))
    return out


def wrf_refs(s, m):
    N, q = names(s, m, "N_field"), names(s, m, "q_names")
    fr, qs, qc, cf = [names(s, m, a) for a in ("strat_frac_names", "q_names_stratiform", "q_names_convective",
                                               "conv_frac_names")]
    hyd = pylist(s, s.field(m, "hyd_types"))
    pres = lambda p: (p.leaf("P") + p.leaf("PB")) / 100                          # noqa: E731
    rho = lambda p: pres(p) * 100 / (RD * p.leaf("wrf:tk"))                      # noqa: E731
    out = {"pressure": ("hPa", pres), "rho_a": ("air density in kg m-3", rho),
           "T": ("K", lambda p: p.leaf("wrf:tk")), "Z": ("m", lambda p: p.leaf("wrf:z"))}
    nu = s.var_nuwrf
    for h in hyd:
        out[N[h]] = ("number concentration in cm-3", lambda p, h=h: p.leaf(N[h]) * rho(p) / 1e6)
        if nu and h in ("cl", "ci"):
            out[fr[h]] = ("cloud fraction", lambda p: p.leaf("CLDFRA"))
        else:
            out[fr[h]] = ("1 where there is %s" % h, lambda p, h=h: 1 if p.leaf(q[h]) > 1e-14 else 0)
        out[qs[h]] = ("mixing ratio", lambda p, h=h: p.leaf(q[h]))
        out[qc[h]] = ("no convective clouds", lambda p: 0.)
        out[cf[h]] = ("no convective clouds", lambda p: 0.)
    if "gr" in hyd and "ha" in hyd:
        out["RHO_GRAUPEL"] = ("graupel density", lambda p: p.leaf("QGRAUP") / p.leaf("QVGRAUPEL"))
        out["RHO_HAIL"] = ("hail density", lambda p: p.leaf("QHAIL") / p.leaf("QVHAIL"))
    return out


def other_refs(s, m):
    pf, tf = s.field(m, "p_field").val, s.field(m, "T_field").val
    return {"rho_a": ("air density in kg m-3", lambda p: p.leaf(pf) / (RD * p.leaf(tf)))}


def fn(s, task, o):
    kind, m = task
    fresh(s)
    if kind == "order":
        return order(s, m, o)
    s.events = []
    try:
        mm = raw_model(s, m)
    except AbsRaise as e:
        o.unk("%s: %s" % (m, e))
        return
    s.var_nuwrf = m == "WRF_nuwrf"
    w = {}
    for e in s.events:
        if e.kind == "dsset":
            w[e.data.get("name")] = e
    refs = e3sm_refs(s, mm) if m in E3SM else wrf_refs(s, mm) if m in WRF else other_refs(s, mm)
    terms = s.terms_of(mm)
    rng = dict(RNG)
    if m in OTHER:
        rng[s.field(mm, "p_field").val] = (2000., 1e5)
        rng[s.field(mm, "T_field").val] = (210., 305.)
    for name, (what, f) in refs.items():
        t = terms.get(name)
        if t is None:
            o.unk("%s: no field %s" % (m, name))
            continue
        o.n("obligations")
        t = units.si(t)
        try:
            for few in (False, True):
                bad = None
                for k in range(16):
                    giv = {}
                    p0 = ident.Point(k)
                    for x in mixing(s, mm):
                        giv[x] = 1e-20 if few and ident._rnd(k, x) < .5 else 1e-7 + 1e-3 * ident._rnd(k, x, "q")
                    if "WRF" in m and few:
                        giv = {x: (1e-16 if v < 1e-15 else v) for x, v in giv.items()}
                    giv["BVRIM"] = 1e-6 + 1e-5 * ident._rnd(k, "BVRIM")
                    re_ = names(s, mm, "strat_re_fields")
                    if few:
                        for x in re_.values():
                            if ident._rnd(k, x) < .3:
                                giv[x] = 0.
                    p = P(k, giv, rng)
                    got = p(t)
                    try:
                        want = f(p)
                    except ZeroDivisionError:
                        want = float("nan")
                    if want != want and got != got:
                        continue
                    if want != want and name not in re_.values():
                        continue
                    if not ident.same(got, want):
                        bad = {x: p.leaf(x) for x in sorted(p.read) if "#" not in x and "table" not in x}, got, want
                        break
                if bad:
                    o.find("state:%s" % (what if what in ("hPa", "K", "m") else what.split(" in ")[0]),
                           "%s: the field %s should be %s; for %s it is %.6g instead of %.6g" % (
                               m, name, what, ", ".join("%s=%.4g" % x for x in list(bad[0].items())[:6]), bad[1],
                               bad[2]), w.get(name) or ("emc2/core/model.py", 0, "__init__"))
                    break
        except ident.Unread as e:
            o.unk("%s %s: %s" % (m, name, str(e)[:200]))
        except (OverflowError, KeyError, TypeError, AttributeError, ValueError) as e:
            o.unk("%s %s: %r" % (m, name, e))
        if len(o.samples) < 2:
            o.samples.append("%s: %s is %s" % (m, name, what))


def mixing(s, m):
    out = set()
    for a in ("q_names", "q_names_stratiform"):
        if a in s.node(m.addr).fields:
            out |= set(names(s, m, a).values())
    if isinstance(s.field(m, "p3_kws"), Ref) if "p3_kws" in s.node(m.addr).fields else False:
        out |= {b.val for a, b in s.node(s.field(m, "p3_kws").addr).items.items() if a == "q_rim_name"}
    return out


# -- vertical order -------------------------------------------------------------------------------------------

VARS = {"T": ("time", "lev"), "Z3": ("time", "lev"), "Q": ("time", "lev"), "NUMLIQ": ("time", "lev"),
        "CLDLIQ": ("time", "lev"), "CLDICE": ("lev", "time"), "hyam": ("lev",), "hybm": ("lev",), "PS": ("time",)}


def axis(t, dims):
    """axes a flip reverses (list), or None if unknown"""
    a = t.args[1:]
    if not a or (a[0].op == "c" and a[0].args[0] is None):
        return list(range(len(dims)))
    x = a[0]
    while x.op in ("m:item", "item", "int", "squeeze", "idx") and x.args:
        x = x.args[0]
    if x.op in ("kw",):
        x = x.args[-1]
    if x.op == "c":
        v = x.args[0]
        if isinstance(v, str):
            return [dims.index(v)] if v in dims else None
        return [v % len(dims)] if isinstance(v, int) else None
    if x.op in ("np:argwhere", "nonzero") and x.args[0].op == "tup" and all(
            isinstance(y, tm.T) and y.op == "c" for y in x.args[0].args):
        return [k for k, y in enumerate(x.args[0].args) if y.args[0]]
    return None


def flips(t, name):
    """number of reversals per axis between the file's variable and t, following shape-keeping steps only"""
    n = {}
    dims = list(VARS[name])
    while True:
        if t.op == "in" and t.args[-1] == name:
            return n
        if t.op == "flip":
            ax = axis(t, dims)
            if ax is None:
                return None
            for k in ax:
                n[dims[k]] = n.get(dims[k], 0) + 1
            t = t.args[0]
        elif t.op == "where" and len(t.args) == 3:
            xs = [x for x in t.args[1:] if tm.contains(x, lambda y: y.op == "in" and y.args[-1] == name)]
            if len(xs) != 1:
                return None
            t = xs[0]
        elif t.op in ("values", "copy", "astype"):
            t = t.args[0]
        else:
            return None


def order(s, m, o):
    s.file_dims = VARS
    s.events = []
    try:
        mm = raw_model(s, m)
    except AbsRaise as e:
        o.unk("%s: %s" % (m, e))
        return
    terms = s.terms_of(mm)
    done = 0
    for name, dims in VARS.items():
        t = terms.get(name)
        if t is None:
            continue
        best = None
        for x in tm.nodes([t]):
            if x.op == "flip" and tm.contains(x, lambda y: y.op == "in" and y.args[-1] == name):
                if best is None or x.id > best.id:
                    best = x
        if best is None:
            n = {} if tm.contains(t, lambda y: y.op == "in" and y.args[-1] == name) and not tm.contains(
                t, lambda y: y.op in ("idx", "sortby", "map", "loop") or y.op.startswith(("m:", "ext"))) else None
        else:
            n = flips(best, name)
        if n is None:
            o.unk("%s: order of %s" % (m, name))
            continue
        o.n("obligations")
        done += 1
        want = {"lev": 1} if "lev" in dims else {}
        got = {k: v % 2 for k, v in n.items() if v % 2}
        if got != want:
            o.find("vertical-order", "%s: %s %s when the file is read; heights of this model descend in the file and "
                   "every field with that dimension has to be reversed along it once" % (
                       m, name, "is reversed along %s" % "/".join(got) if got else "is not reversed"),
                ("emc2/core/model.py", 0, "__init__"))
    if done < 4:
        o.unk("%s: orders read: %d" % (m, done))


def main(tier):
    return base.main(
        "C31", tasks(tier), fn,
        "Constructors of %d model definitions are interpreted abstractly on a symbolic file; each derived or converted "
        "field's term is compared, as a formula, with its definition (hybrid pressure in hPa, air density, number "
        "concentration in cm-3, effective radius in micron with 0 as missing, WRF fractions and densities, P3 rime "
        "properties and size distribution), and the number of vertical reversals of every field is counted." % len(
            E3SM + WRF + OTHER),
        ["file variables have the units of the model's own output (Pa, K, kg-1, m)",
         "re of precipitation is a diameter in m in E3SM/CESM output"], tier=tier)
