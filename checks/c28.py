"""C28: published relations, with their published coefficients and in their published units."""
import math
import re

from . import base
from .scen import *  # noqa
from engine import ident, units
from engine.values import *  # noqa
from engine import terms as tm
from engine.dep import A, B, D, Dep, Ev, Unread, indexes, kws, lift

PI = math.pi
LIQ = ("cl", "pl")
ICE = ("ci", "pi", "sn", "gr", "ha", "pir", "pid", "pif")
FIXED_MU = ("ModelE", "ModelE3", "DHARMA")
NOMIE = ("WRF_nssl",)


def tasks(tier):
    out = []
    q = tier == "quick"
    for m in SIM_MODELS:
        core = m in CORE_MODELS
        for i in ("KAZR", "HSRL"):
            for lg in LOGICS:
                for mie in (False, True):
                    if lg == "empirical" and mie or (q and mie and not core):
                        continue
                    out.append(("sim", m, i, lg, mie, None))
    for i in RADARS:
        out.append(("sim", "ModelE", i, "empirical", False, None))
        out.append(("sim", "CESM2", i, "rad", False, None))
        if not q or i in ("WACR", "NEXRAD"):
            out.append(("sim", "ModelE", i, "micro", True, None))
    for i in INSTRUMENTS:
        if i in RADARS:
            continue
        out.append(("sim", "ModelE", i, "rad", False, None))
        if not q or i in ("CALIOP", "RL"):
            out.append(("sim", "ModelE", i, "empirical", False, None))
            out.append(("sim", "DHARMA", i, "micro", False, None))
    for m in CORE_MODELS if q else SIM_MODELS:
        for i in ("KAZR", "HSRL"):
            for od in (None, False):
                out.append(("edge", m, i, "rad", od))
                if not q:
                    out.append(("edge", m, i, "micro", od))
                    out.append(("edge", m, i, "empirical", od))
    for m in ("ModelE", "CESM2") if q else CORE_MODELS:
        for i in ("KAZR", "HSRL"):
            for cd in (True, False):
                out.append(("sim", m, i, "micro", True, cd))
    for i in RADARS if not q else ("KAZR", "WACR"):
        out.append(("sim", "WRF_nssl", i, "micro", True, None, ("cl", "pl", "sn")))
        out.append(("sim", "WRF_nssl", i, "micro", True, None, ("gr", "ha")))
    for m in CORE_MODELS:
        for mt in ("HSRL",):
            for sfc in (True, False):
                for pr in (True, False):
                    out.append(("cosp", m, mt, sfc, pr))
    out += [("direct", f) for f in DIRECT]
    out += [("consts", m) for m in SIM_MODELS]
    return out


# -- the relations, as functions of a Point -----------------------------------------------------------------

def log10(x):
    return math.log10(x) if x == x and x > 0 else float("nan")


class Ref:
    def __init__(self, c, sub, mie, cd):
        s = c.s
        self.c, self.s, self.mie, self.cd = c, s, mie, cd
        g = lambda o, a: s.pyval(s.field(o, a))   # noqa: E731
        self.model_name = getattr(s.field(c.m, "model_name"), "val", None)
        self.fam = getattr(s.field(c.m, "rad_scheme_family"), "val", None)
        self.scheme = str(getattr(s.field(c.m, "mcphys_scheme"), "val", ""))
        self.role = {}
        for f, r in (("p_field", "p"), ("T_field", "T"), ("q_field", "q"), ("z_field", "z")):
            self.role[s.field(c.m, f).val] = r
        self.p3 = g(c.m, "p3_kws") if self.scheme == "P3" else {}
        self.classes = c.classes
        self.martin = "right"

    # values of the model and of the instrument
    def v(self, p, obj, attr, key=None):
        x = self.s.field(obj, attr)
        if key is not None:
            it = self.s.node(x.addr).items
            if key not in it:
                return None
            x = it[key]
        if isinstance(x, K):
            return x.val
        return p(units.si(self.s.term(x)))

    def inst(self, p, a):
        return self.v(p, self.c.i, a)

    def mod(self, p, a, key=None):
        return self.v(p, self.c.m, a, key)

    def field(self, p, attr, key):
        """value of the model field an attribute (or a dictionary entry) names"""
        x = self.s.field(self.c.m, attr)
        it = self.s.node(x.addr).items
        nm = getattr(it.get(key), "val", None)
        if nm is None:
            raise ident.Unread("no " + attr)
        return p.leaf(nm)

    def rho(self, p, h):
        r = self.mod(p, "Rho_hyd", h)
        if r == "variable":
            return self.field(p, "variable_density", h)
        return r

    def fluffy(self, p, h):
        x = self.s.field(self.c.m, "fluffy")
        if isinstance(x, K) and x.val is None:
            return None
        return self.mod(p, "fluffy", h)

    def table(self, p, col, h, xs):
        liq = h in LIQ
        nm = [n[6:] for n in p.read if n.startswith("table ") and n.endswith("." + col)]
        nm = [n for n in nm if ("liq" in n) == liq]
        if len(set(nm)) != 1:
            raise ident.Unread("which table for %s" % col)
        nm = nm[0]
        tab = nm[:-len(col) - 1]
        return p.table({"%s.%s" % (tab, k): x for k, x in xs.items()}, nm)

    # -- gases
    def kappa_wv(self, p):
        P, T, f = p.leaf("p") / 100, p.leaf("T"), self.inst(p, "freq") * 1e-9
        rho = p.leaf("q") * 1e3 * P * 100 / (self.inst(p, "R_d") * T)
        g1 = 2.85 * (P / 1013) * (300 / T) ** .626 * (1 + .018 * rho * T / P)
        return 2 * f ** 2 * rho * (300 / T) ** 1.5 * g1 * (
            (300 / T) * math.exp(-644 / T) / ((494.4 - f ** 2) ** 2 + 4 * f ** 2 * g1 ** 2) + 1.2e-6)

    def kappa_o2(self, p):
        P, T, f = p.leaf("p") / 100, p.leaf("T"), self.inst(p, "freq") * 1e-9
        g0 = .59 if P >= 333 else 1.18 if P < 25 else .59 * (1 + 3.1e-3 * (333 - P))
        g = g0 * (P / 1013) * (300 / T) ** .85
        return 1.1e-2 * f ** 2 * (P / 1013) * (300 / T) ** 2 * g * (
            1 / ((f - 60) ** 2 + g ** 2) + 1 / (f ** 2 + g ** 2))

    def kappa_att(self, p):
        return self.kappa_wv(p) + self.kappa_o2(p)

    def depth(self, p, z=1.):
        return p.leaf("#layers") * p.leaf("#dz") / z

    def atm_ext(self, p):
        return 10 ** (-.2 * self.depth(p, 1e3) * self.kappa_att(p))

    def Ze_min(self, p):
        return self.inst(p, "Z_min_1km") + 20 * log10(p.leaf("z") / 1000)

    # -- molecules
    def mol(self, p):
        lam = self.inst(p, "wavelength")
        P, T = p.leaf("p") / 100, p.leaf("T")
        Tc = T - 273.15
        nu2 = lam ** -2
        nref = 1 + (6432.8 + 2949810 / (146 - nu2) + 25540 / (41 - nu2)) * 1e-8
        n = (nref - 1) * (1 + .00366 * 15) / (1 + .00366 * Tc) * P / 1013.25 + 1
        con = self.s.node(self.s.field(self.c.m, "consts").addr).items
        R, A, Rd = [p(self.s.term(con[k])) for k in ("R", "Avogadro_c", "R_d")]
        N = P * 100 / (R * T) * A                        # m-3
        d = .035
        k = (n ** 2 - 1) ** 2 / (N ** 2 * (lam * 1e-6) ** 4)
        sig = 8 * PI ** 3 / 3 * k * (6 + 3 * d) / (6 - 7 * d)
        s180 = PI ** 2 * k * 2 * (2 + d) / (6 - 7 * d) * .7629 * (1 + .932)
        rho = P * 100 / (Rd * T)
        return dict(n_s=n, N_s=N, sigma=sig, sigma_180=s180, sigma_180_vol=s180 * N, beta=sig * N,
                    kappa=sig * N / rho, u_atm=self.depth(p) * sig * N, tau=math.exp(-2 * self.depth(p) * sig * N))

    # -- content
    def q(self, p, h, w):
        return p.leaf("%s_q_subcolumns_%s" % (w, h))

    def N(self, p, h, w):
        return p.leaf("%s_n_subcolumns_%s" % (w, h))

    def WC(self, p, h, w):
        """g m-3"""
        return self.q(p, h, w) * p.leaf("p") / (self.inst(p, "R_d") * p.leaf("T")) * 1e3

    def re(self, p, h, w):
        return self.field(p, w + "_re_fields", h)

    # -- empirical relations
    def Ze_empirical(self, p, h, w):
        W = self.WC(p, h, w)
        if h == "cl":
            z = .031 * W ** 1.56
        elif h == "pl":
            z = (W * 1e3 / 3.4) ** 1.75
        else:
            f, T = self.inst(p, "freq"), p.leaf("T") - 273.15
            L = log10(W)
            if 2e9 <= f < 4e9:
                d = (L + .0197 * T + 1.7) / .060
            elif 75e9 <= f < 110e9:
                d = (L + .00706 * T + .992) / (.000580 * T + .0923)
            else:
                d = (L + .0186 * T + 1.63) / (.000242 * T + .0699)
            return d
        return 10 * log10(z)

    def hyd_ext_empirical(self, p, w):
        eps = self.inst(p, "eps_liq")
        k = 6 * PI / (self.inst(p, "wavelength") * self.rho(p, "cl")) * complex((eps - 1) / (eps + 2)).imag * 4.34e6
        W = sum(self.WC(p, h, w) for h in self.classes if h in LIQ)
        return 10 ** (-.2 * self.depth(p, 1e3) * k * W)

    def alpha_empirical(self, p, h, w):
        W = self.WC(p, h, w)
        if h in LIQ:
            return 3 * W * 1e-3 / (2 * self.rho(p, h) * self.re(p, h, w) * 1e-6)
        T = p.leaf("T") - 273.15
        return (W / (.00532 * (T + 90) ** 2.55)) ** (1 / (1.31 * math.exp(.0047 * T)))

    def beta_empirical(self, p, h, w):
        return self.alpha_empirical(p, h, w) / self.mod(p, "lidar_ratio", h)

    # -- geometric scatterers
    def p3ice(self, h):
        return self.fam == "P3" and h == "ci"

    def p3x(self, p):
        return {"Fr": p.leaf("Fr"), "rho_r": p.leaf("rho_r"), "q_norm": p.leaf("qi_norm")}

    def p3tab(self, p, col, xs=None):
        nm = [n[6:] for n in p.read if n.startswith("table ") and n.endswith("." + col)]
        if len(set(nm)) != 1:
            raise ident.Unread("which table for %s" % col)
        tab = nm[0][:-len(col) - 1]
        return p.table({"%s.%s" % (tab, k): x for k, x in (xs or self.p3x(p)).items()}, nm[0])

    def area(self, p, h, w):
        """(cross section per volume, effective radius)"""
        hyb = self.p3.get("use_hybrid_scat")
        if self.p3ice(h) and hyb != 1:
            col = "A_tot_norm" if hyb == 0 else "A_tot_Mie_norm" if self.mie else "A_tot_eq_V_norm"
            return self.p3tab(p, col) * p.leaf(self.p3["in_cld_Ni_name"]), None
        rhob = self.rho(p, h) if h in LIQ else self.inst(p, "rho_i")
        if self.p3ice(h):
            r = self.p3tab(p, "ri_eff") * 1e6
            if self.fluffy(p, h) is not None or not isinstance(self.s.field(self.c.m, "fluffy"), K):
                r *= self.p3tab(p, "rho_m_weight") / rhob
        else:
            r = self.re(p, h, w)
            F = None if h in LIQ else self.fluffy(p, h)
            if F is not None:
                x = self.rho(p, h) / rhob
                r *= F * x + (1 - F) * x ** (1 / 3)
        tau = 3 * self.q(p, h, w) * (p.leaf("#dp") / self.inst(p, "g")) / (2 * rhob * r * 1e-6)
        return tau / (2 * p.leaf("#dz")), r

    def bulk(self, p, col, h, w):
        A, r = self.area(p, h, w)
        if self.p3ice(h):
            return A * self.p3tab(p, col + ("_Mie_bulk" if self.mie else "_bulk"))
        if h in LIQ and self.fam in ("CESM", "P3"):
            return A * self.table(p, col, h, {"mu": self.field(p, "mu_field", h),
                                              "lambda": self.field(p, "lambda_field", h)})
        return A * self.table(p, col, h, {"r_e": r})

    # -- single particles
    def psd(self, p, h):
        """(N_0, mu, lambda)"""
        if self.scheme == "P3" and h not in LIQ:
            return (p.leaf(self.p3["in_cld_Ni_name"]) * p.leaf(self.p3["N0_ice_name"]),
                    self.field(p, "mu_field", "ci"), self.field(p, "lambda_field", "ci"))
        N, q = self.N(p, h, "strat") * 1e6, self.q(p, h, "strat")
        mu = 0.
        if h == "cl":
            disp = self.cd if self.cd is not None else self.model_name not in FIXED_MU
            mu = 1 / .09
            if disp:
                n = N * 1e-6 * (1e-6 if self.martin == "known" else 1)
                mu = min(15., max(2., 1 / (.0005714 * n + .2714) ** 2 - 1))
        lam = (PI * self.rho(p, h) / 6 * N * math.gamma(mu + 4) / (q * math.gamma(mu + 1))) ** (1 / 3)
        return N * lam ** (mu + 1) / math.gamma(mu + 1), mu, lam

    def cols(self, p, h):
        """size, backscatter and extinction columns, each read at the current size"""
        if h in ICE and not self.mie:
            lut = {"CESM": "CESM_ice", "ModelE": "E3_ice", "P3": "p3_ice"}[self.fam]
            dv = "p_diam_eq_V" if self.fam == "ModelE" else "p_diam"
            tab = self.s.node(self.s.field(self.c.i, "scat_table").addr).items[lut]
        else:
            k = h if h in LIQ or h == "ci" else "pi"
            tab, dv = self.s.node(self.s.field(self.c.i, "mie_table").addr).items[k], "p_diam"
        if self.scheme == "P3" and h == "ci" and not self.mie:
            D = lambda: p.column("scat_table.p3_ice.p_diam")    # noqa: E731
            sf = "_eq_V" if self.p3.get("use_hybrid_scat") else ""
            x = lambda: {"Fr": p.leaf("Fr"), "rho_r": p.leaf("rho_r"), "p_diam": D()}   # noqa: E731
            return D, lambda: self.p3tab(p, "beta_p" + sf, x()), lambda: self.p3tab(p, "alpha_p" + sf, x()), \
                lambda: self.p3tab(p, "vt", x())
        vt = None
        if self.scheme == "P3" and h == "ci":
            def vt():
                return self.p3tab(p, "vt", {"Fr": p.leaf("Fr"), "rho_r": p.leaf("rho_r"), "p_diam": rd(dv)()})
        if isinstance(tab, Arr):
            t = self.s.term(tab)
            rd = lambda col: (lambda: p.pick(t, col))           # noqa: E731
        else:
            n = self.s.node(tab.addr)
            ts = {}
            for col in (dv, "beta_p", "alpha_p"):
                d = self.s.node(n.vars[col])
                ts[col] = self.s.view(d.buf, d.path)
            rd = lambda col: (lambda: p(ts[col]))               # noqa: E731
        return rd(dv), rd("beta_p"), rd("alpha_p"), vt

    def micro(self, p, h, what, V=None):
        N0, mu, lam = self.psd(p, h)
        D, beta, alpha, vt = self.cols(p, h)
        corr = 1.
        r = self.mod(p, "Vd_rhoa_scaling_ref", h)
        if r is not None:
            corr = (r / p.leaf("rho_a")) ** .54

        def n():
            d = D()
            return N0 * d ** mu * math.exp(-lam * d)

        def vel():
            if vt:
                return -vt() * corr
            if self.scheme.lower() == "nssl":
                d = D()
                v = {"pl": lambda: 10 * (1 - math.exp(-516.575 * d)), "sn": lambda: 21.52823061429272 * d ** .42,
                     "cl": lambda: 131.6 * d ** .824}.get(h)
                if h in ("gr", "ha"):
                    r = self.rho(p, h)
                    if r < 800:     # below, the drag coefficient depends on a fit this check has no source for
                        raise ident.Unread("NSSL drag coefficient")
                    v = lambda: math.sqrt(4 * r * 9.81 / (3 * .45 * 1.007)) * math.sqrt(d)     # noqa: E731
                if v is None:
                    raise ident.Unread("NSSL fall speeds")
                return -v() * corr
            return -self.mod(p, "vel_param_a", h) * D() ** self.mod(p, "vel_param_b", h) * corr
        f = {"beta": lambda: beta() * n(), "alpha": lambda: alpha() * n(), "v": lambda: vel() * beta() * n(),
             "vv": lambda: (vel() - V) ** 2 * beta() * n()}[what]
        return p.integral(f, D)

    # -- by field name
    def radar(self, p, lg, var, h, w):
        k = self.inst(p, "wavelength") ** 4 / (self.inst(p, "K_w") * PI ** 5) * 1e-6
        lg = "rad" if w == "conv" and lg == "micro" else lg
        if var == "Ze":
            if lg == "empirical":
                return self.Ze_empirical(p, h, w)
            return 10 * log10(k * (self.bulk(p, "Q_back", h, w) if lg == "rad" else self.micro(p, h, "beta")))
        if var == "Vd":
            return self.micro(p, h, "v") / self.micro(p, h, "beta")
        if var == "sigma_d":
            V = self.micro(p, h, "v") / self.micro(p, h, "beta")
            return math.sqrt(self.micro(p, h, "vv", V) / self.micro(p, h, "beta"))
        raise KeyError(var)

    def lidar(self, p, lg, var, h, w):
        lg = "rad" if w == "conv" and lg == "micro" else lg
        if var == "OD":
            return self.depth(p) * self.lidar(p, lg, "alpha_p", h, w)
        if lg == "empirical":
            return (self.beta_empirical if var == "beta_p" else self.alpha_empirical)(p, h, w)
        if lg == "rad":
            return self.bulk(p, "Q_back" if var == "beta_p" else "Q_ext", h, w)
        return self.micro(p, h, "beta" if var == "beta_p" else "alpha")

    def hyd_ext(self, p, lg, w):
        lg = "rad" if w == "conv" and lg == "micro" else lg
        if lg == "empirical":
            return self.hyd_ext_empirical(p, w)
        e = sum(self.bulk(p, "Q_ext", h, w) if lg == "rad" else self.micro(p, h, "alpha") for h in self.classes)
        return math.exp(-2 * self.depth(p) * e)

    def tot(self, p, var, w):
        d = sum(self.micro(p, h, "beta") for h in self.classes)
        V = sum(self.micro(p, h, "v") for h in self.classes) / d
        if var == "Vd":
            return V
        return math.sqrt(sum(self.micro(p, h, "vv", V) for h in self.classes) / d)

    def sumlidar(self, p, lg, var, ws):
        return sum(self.lidar(p, lg, var, h, w) for h in self.classes for w in ws)

    def beta_att(self, p, lg, ws):
        m = self.mol(p)
        return (m["sigma_180_vol"] + self.sumlidar(p, lg, "beta_p", ws)) * m["tau"] * math.exp(
            -2 * self.inst(p, "eta") * self.sumlidar(p, lg, "OD", ws))

    def LDR(self, p, lg, ws):
        n = sum(self.lidar(p, lg, "beta_p", h, w) * self.mod(p, "LDR_per_hyd", h) for h in self.classes for w in ws)
        return n / self.sumlidar(p, lg, "beta_p", ws)

    def of(self, name, lg):
        """the relation a field must follow (function of a Point), and what it is called"""
        ws = ["strat"] + (["conv"] if self.c.conv else [])
        m = re.match(r"sub_col_(Ze|Vd|sigma_d|beta_p|alpha_p|OD)_(%s)_(strat|conv)$" % "|".join(self.classes), name)
        if m:
            f = self.radar if m.group(1) in ("Ze", "Vd", "sigma_d") else self.lidar
            return lambda p: f(p, lg, *m.groups())
        if name in ("kappa_wv", "kappa_o2", "kappa_att", "atm_ext", "Ze_min"):
            return getattr(self, name)
        if name in ("n_s", "N_s", "sigma", "sigma_180", "sigma_180_vol", "beta", "kappa", "u_atm", "tau"):
            return lambda p: self.mol(p)[name]
        m = re.match(r"hyd_ext_(strat|conv)$", name)
        if m:
            return lambda p: self.hyd_ext(p, lg, m.group(1))
        m = re.match(r"sub_col_(Vd|sigma_d)_tot_strat$", name)
        if m:
            return lambda p: self.tot(p, m.group(1), "strat")
        m = re.match(r"sub_col_(beta_att|LDR)(?:_tot)?(?:_(strat|conv))?$", name)
        if m:
            w = [m.group(2)] if m.group(2) else ws
            f = self.beta_att if m.group(1) == "beta_att" else self.LDR
            return lambda p: f(p, lg, w)
        return None


RANGES = {"p": (2000., 105000.)}


def names_of(s, m, attr):
    f = s.field(m, attr)
    return [x.val for x in s.node(f.addr).items.values() if isinstance(x, K)] if hasattr(f, "addr") else []


def given_for(c, sub):
    g = {k: 1 for k in sub if "_frac_subcolumns_" in k}
    g["inst.eps_liq"] = complex(7.3, 11.2)
    return g


def ranges_for(sub):
    r = dict(RANGES)
    for k in sub:
        if "_n_subcolumns_" in k:
            r[k] = (5., 3000.)
        if "_q_subcolumns_" in k:
            r[k] = (100., 3000.)
    return r


def thin(rng, k):
    """the same ranges with 10**-k times the hydrometeors"""
    r = dict(rng)
    for n, (a, b) in rng.items():
        if "_n_subcolumns_" in n or "_q_subcolumns_" in n:
            r[n] = (a * 10. ** -k, b * 10. ** -k)
    r["in_cld_Ni"] = (.2 * 10. ** -k, 3 * 10. ** -k)
    return r


def relate(t, f, n, giv, rng, alias, sat):
    """also where the other elements of the arrays differ from this one (other subcolumns without the class)"""
    return relate_(t, f, n, giv, rng, alias, sat, True) or \
        relate_(t, f, 4 if not sat else n, giv, rng, alias, sat, False)


def relate_(t, f, n, giv, rng, alias, sat, alike):
    for k in (0, 2, 4, 6, 8, 10, 12, 15, 18, 21):
        try:
            return ident.compare(t, f, n=n, given=giv, ranges=thin(rng, k), alias=alias, sat=sat, alike=alike)
        except ident.Void:
            if not sat or k == 21:
                raise


def what_of(name, lg):
    for k in ("kappa_wv", "kappa_o2", "kappa_att", "atm_ext", "Ze_min"):
        if name == k:
            return k
    return re.sub(r"_(cl|pl|ci|pi|sn|gr|ha|pir|pid|pif)_", "_<class>_", name) + "/" + lg


# -- COSP lidar emulator -------------------------------------------------------------------------------------

CROSS = {"liq": (.4099, .009, 0), "ice": (.2904, 0)}
CURVE = (9.032e3, -2.136e3, 173.394, -3.951, .256, -9.478e-4)


def poly(c, x):
    v = 0.
    for k in c:
        v = v * x + k
    return v


def cosp_ref(p, classes, ws, precip, what):
    g = p.leaf
    s180, tau = g("sigma_180_vol"), g("tau")
    tot = s180 * 1.0284
    cross = s180 * .0284 / 1.0284
    od_all = 0.
    for w in ws:
        for kind in ("liq", "ice"):
            hs = [h for h in classes if (h in LIQ) == (kind == "liq") and (precip or h in ("cl", "ci"))]
            b = sum(g("sub_col_beta_p_%s_%s" % (h, w)) for h in hs)
            od = sum(g("sub_col_OD_%s_%s" % (h, w)) for h in hs)
            e = math.exp(-2 * .7 * od)
            co = (s180 + b) * tau * e
            bx = poly(CROSS[kind], co * 1e3) / 1e3 / e / tau - s180 * .0284 / 1.0284
            tot, cross, od_all = tot + b + bx, cross + bx, od_all + od
    e = math.exp(-2 * .7 * od_all) * tau
    tot, cross = tot * e, cross * e
    sr = tot / (s180 * 1.0284 * tau)
    if what == "mask":
        T = g("T")
        if sr >= 30:
            return float("nan")
        if not sr > 5:
            return 0
        return 1 if T > 273.15 else 2 if T < 233.15 else 2 if cross > poly(CURVE, tot * 1e3) / 1e3 else 1
    return {"ATBtot": tot, "ATBcross": cross, "SR": sr}[what]


def cosp_terms(s, task):
    from .c18 import prepared
    _, m, i, sfc, precip = task
    c = prepared(s, m, i)
    run(s, CL, "lidar_emulate_cosp_phase", [c.i, c.m],
        dict(output_ATB=K(True), OD_from_sfc=K(sfc), inc_precip_hyd_atb=K(precip)))
    return list(outputs(c).items())


def cosp(s, task, o):
    from .c18 import prepared
    _, m, i, sfc, precip = task
    c = prepared(s, m, i)
    r = run(s, CL, "lidar_emulate_cosp_phase", [c.i, c.m],
            dict(output_ATB=K(True), OD_from_sfc=K(sfc), inc_precip_hyd_atb=K(precip)))
    if r.raised is not None:
        o.unk("%s: %s" % (task, r.raised))
        return
    w = {e.data.get("name"): e for e in r.events if e.kind == "dsset"}
    rng = {"sigma_180_vol": (5e-7, 2e-6), "tau": (.4, 1.), "T": (225., 285.)}
    ws = ("strat", "conv") if c.conv else ("strat",)
    for h in c.classes:
        for k in ws:
            rng["sub_col_beta_p_%s_%s" % (h, k)] = (1e-8, 3e-6)
            rng["sub_col_OD_%s_%s" % (h, k)] = (1e-3, .5)
    alias = {s.field(c.m, "T_field").val: "T"}
    for k, t in outputs(c).items():
        q = re.match(r"COSP_(ATBtot|ATBcross|SR)_(strat|conv|all_hyd)$", k)
        if q:
            what, part = q.groups()
        else:
            q = re.match(r"(?:(strat|conv)_COSP_phase_mask|COSP_phase_mask_all_hyd)$", k)
            if not q:
                continue
            what, part = "mask", q.group(1) or "all_hyd"
        ww = ws if part == "all_hyd" else (part,)
        judge(o, "%s (%s)" % (task[1], "from surface" if sfc else "from satellite"), k,
              units.si(t), lambda p: cosp_ref(p, c.classes, ww, precip, what), 30, {}, rng, alias, w.get(k),
              "cosp:%s" % what)


def judge(o, where, name, t, f, n, giv, rng, alias, ev, key):
    try:
        bad = ident.compare(t, f, n=n, given=giv, ranges=rng, alias=alias)
    except ident.Unread as e:
        o.unk("%s %s: %s" % (where, name, e))
        return
    except (ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, ValueError) as e:
        o.unk("%s %s: %r" % (where, name, e))
        return
    o.n("obligations")
    if bad:
        rd, got, want = bad
        o.find("relation:" + key, "%s: %s does not follow its published relation: for %s it gives %.6g, the "
               "relation gives %.6g" % (where, name, ", ".join("%s=%.4g" % (k.split("/")[-1], v) for k, v in list(
                   rd.items())[:8] if isinstance(v, (int, float))),
                   got.real if isinstance(got, complex) else got, want), ev)


# -- stand-alone relations ------------------------------------------------------------------------------------

def water_index(p):
    """Meissner and Wentz (2004)"""
    f, T = 299792458. / (p.leaf("wavelength") * 1e-2) / 1e9, p.leaf("temperature")
    es = (3.70886e4 - 8.2168e1 * T) / (4.21854e2 + T)
    e1 = 5.7230 + 2.2379e-2 * T - 7.1237e-4 * T ** 2
    n1 = (45 + T) / (5.0478 - 7.0315e-2 * T + 6.0059e-4 * T ** 2)
    ei = 3.6143 + 2.8841e-2 * T
    n2 = (45 + T) / (1.3652e-1 + 1.4825e-3 * T + 2.4166e-4 * T ** 2)
    e = (es - e1) / (1 + 1j * f / n1) + (e1 - ei) / (1 + 1j * f / n2) + ei
    return root(e)


def root(e):
    a = abs(e)
    return complex(math.sqrt((a + e.real) / 2), math.sqrt((a - e.real) / 2))


def ice_index(p):
    r = p.leaf("rho_d")
    return root(complex(1 + 2 * r, 8e-4 * (.52 * r + .62 * r ** 2)))


def brandes(p):
    """Brandes et al. (2002, 2005)"""
    d = p.leaf("D_eq")
    return .9951 + .0251 * d - .03644 * d ** 2 + .005303 * d ** 3 - .0002492 * d ** 4


RI, MS = "emc2.scattering.ref_index", "emc2.scattering.mie_scattering"
DIRECT = {"calc_microwave_ref_index": (RI, ("wavelength", "temperature"), water_index),
          "calc_microwave_ref_index_ice": (RI, ("wavelength", "temperature", "rho_d"), ice_index),
          "brandes": (MS, ("D_eq",), brandes)}


def direct(s, f, o):
    mod, names, ref = DIRECT[f]
    fresh(s)
    r = run(s, mod, f, [], {k: opt(k) for k in names})
    if r.raised is not None:
        o.unk("%s: %s" % (f, r.raised))
        return
    rng = {"wavelength": (.1, 12.), "temperature": (-20., 35.), "rho_d": (.05, .917), "D_eq": (.1, 8.)}
    giv = {}

    class P(ident.Point):
        def leaf(self, nm):
            if nm in names:
                lo, hi = rng[nm]
                return lo + (hi - lo) * ident._rnd(self.seed, nm)
            return ident.Point.leaf(self, nm)

    try:
        t = s.term(r.value)
        for k in range(12):
            p = P(k, giv)
            p.given = {nm: P(k).leaf(nm) for nm in names}
            got, want = p(t), ref(p)
            if abs(got - want) > 1e-6 * abs(want):
                o.find("relation:" + f, "%s does not follow its published relation: for %s it gives %s, the relation "
                       "gives %s" % (f, p.given, got, want), (mod.replace(".", "/") + ".py", 0, f))
                break
    except (ident.Unread, ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
        o.unk("%s: %s" % (f, e))
        return
    o.n("obligations")


CONSTS = {"g": 9.80665, "c": 299792458., "R": 8.314462, "R_d": 287.055, "k_B": 1.380649e-23, "Avogadro_c": 6.02214e23}


def consts(s, m, o):
    fresh(s)
    mm = model(s, m)
    it = s.node(s.field(mm, "consts").addr).items
    for k, want in CONSTS.items():
        if k not in it:
            continue
        try:
            got = ident.Point(1)(units.si(s.term(it[k])))
        except ident.Unread as e:
            o.unk("%s consts[%s]: %s" % (m, k, e))
            continue
        o.n("obligations")
        if abs(got - want) > 3e-3 * want:
            o.find("constant:" + k, "%s: physical constant %s is %.6g, expected %.6g" % (m, k, got, want),
                   ("emc2/core/model.py", 0, "consts"))


def fn(s, task, o):
    if task[0] == "cosp":
        return cosp(s, task, o)
    if task[0] == "direct":
        return direct(s, task[1], o)
    if task[0] == "consts":
        return consts(s, task[1], o)
    if task[0] == "edge":
        return edge(s, task, o)
    _, m, i, lg, mie, cd = task[:6]
    kw = dict(mie_for_ice=mie)
    if len(task) > 6:
        kw["setup_kw"] = {"classes": list(task[6])}
        kw["hyd_types"] = list(task[6])
    if cd is not None:
        kw["calc_dispersion"] = cd
    try:
        c, sub, out = staged(s, m, i, lg, **kw)
    except AbsRaise as e:
        o.unk("%s: %s" % (task, e))
        return
    R = Ref(c, sub, mie, cd)
    w = writes(c)
    giv, rng = given_for(c, sub), ranges_for(sub)
    if m == "WRF_nssl":
        rng = dict(rng, **{x: (800., 917.) for x in names_of(s, c.m, "variable_density")})
    for name, t in out.items():
        f = R.of(name, lg)
        if f is None:
            continue
        t = units.si(t)
        n = 8 if "tot" in name or "hyd_ext" in name else 80 if name.startswith("kappa_") else 12
        try:
            R.martin = "right"
            sat = bool(re.search("hyd_ext|atm_ext|tau$|beta_att", name))
            bad = relate(t, f, n, giv, rng, R.role, sat)
            known = False
            if bad:
                R.martin = "known"
                known = relate(t, f, n, giv, rng, R.role, sat) is None
        except ident.Unread as e:
            o.unk("%s %s %s: %s" % (m, i, name, e))
            continue
        except (ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, ValueError) as e:
            o.unk("%s %s %s: %r" % (m, i, name, e))
            continue
        o.n("obligations")
        if len(o.samples) < 2:
            o.samples.append("%s %s %s: %s equals its relation at %d points" % (m, i, lg, name, n))
        if not bad:
            continue
        if known:
            o.find("martin-1994:number-concentration",
                   "%s with %s: the dispersion of cloud droplets (Martin et al. 1994) is computed from a number "
                   "concentration scaled by 1e-6, but the subcolumn field is in cm-3 already" % (m, i), w.get(name))
            continue
        rd, got, want = bad
        o.find("relation:%s" % what_of(name, lg),
               "%s with %s (%s logic%s): %s does not follow its published relation: for %s it gives %.6g, the "
               "relation gives %.6g" % (m, i, lg, ", Mie ice" if mie else "", name, ", ".join(
                   "%s=%.4g" % (k.split("/")[-1], v) for k, v in list(rd.items())[:8] if isinstance(v, (int, float))),
                   got.real if isinstance(got, complex) else got, want), w.get(name))


class Edge(Dep):
    """marks the elements of layer thicknesses whose value is not positive although heights increase upward"""

    def __init__(self, of, dims, z):
        Dep.__init__(self, of, dims)
        self.z, self.marked = z, []
        self.null = True
        self.bit("#edge", "H", 0)
        self.ids.setdefault("#edge", len(self.ids))

    def heights(self, t):
        e = Ev(1, {}, {}, {})
        n = [100. + 250. * h * h for h in range(self.n["H"])]
        e.values = {self.z: A((self.n["T"], self.n["H"]), n * self.n["T"])}
        e.leaf = lambda nm: e.values[nm]
        v = e(t)
        return v if isinstance(v, A) else A((), [v])

    def o_diff(self, t, a, *r):
        v = Dep.o_diff(self, t, a, *r)
        k = kws(t)
        if isinstance(v, B) or self.z not in tm.labels(a) or "append" not in k:
            return v
        try:
            x, e = self.heights(a), self.heights(k["append"])
            top, nxt = x.d[-1], e.d[-1]
        except (KeyError, Unread, IndexError):
            return v
        v = lift(v)
        if not (isinstance(nxt, (int, float)) and nxt <= top) or v.sh[-1] != self.n["H"]:
            return v
        b = self.bit("#edge", "H", 0)
        out = []
        for ix in indexes(v.sh):
            d = v.at(ix)
            if ix[-1] == self.n["H"] - 1:
                s0, m0 = (d.s, d.m) if isinstance(d, D) else (0, 0)
                d = D(s0 | b, m0 | b)
            out.append(d)
        self.marked.append(nxt - top)
        return A(v.sh, out)


def edge(s, task, o):
    """the thickness that a layer's area or water path is divided or multiplied by is positive in every layer"""
    from .c17 import letters
    _, m, i, lg, od = task
    c, sub, out = staged(s, m, i, lg, setup_kw={"od": od} if od is not None else None)
    of, dims = letters(s, c)
    z = s.field(c.m, "z_field").val
    w = writes(c)
    for name, t in sorted(out.items()):
        q = Edge(of, dims, z)
        try:
            v = q(units.si(t))
        except (Unread, RecursionError):
            continue
        o.n("obligations")
        if isinstance(v, B) or not q.marked:
            continue
        b = q.bit("#edge", "H", 0)
        if any(isinstance(d, D) and d.s & b for d in lift(v).d):
            o.find("thickness:" + what_of(name, lg), "%s with %s (%s logic): %s uses a layer thickness that is not positive: "
                   "the edge of the difference of heights lies below the layer (the top layer of heights up to 2350 m "
                   "is %g m thick)" % (m, i, lg, name, q.marked[0]), w.get(name))


def main(tier):
    return base.main(
        "C28", tasks(tier), fn,
        "Each simulated field is derived symbolically from the source for %d configurations (model definitions x "
        "instruments x the three logics), brought to SI units, and compared as a formula with the published relation "
        "written down independently in checks/c28.py (gas absorption, molecular scattering, Fox/Illingworth, "
        "Hagen/Yuter, Hogan, Heymsfield, geometric-scatterer and single-particle integrals, gamma size distribution, "
        "transmittances, attenuated backscatter, depolarisation ratio).  Formulas are identified by fingerprints: "
        "equal values at independent points of their symbols; no code of the repository is run." % len(tasks(tier)),
        ["layers alike: a field equals its vertical neighbours (vertical order is C04's subject)",
         "interpolated tables are arbitrary smooth functions; integrals over size are read on two sizes",
         "terms without a pointwise reading are left undecided"],
        tier=tier)
