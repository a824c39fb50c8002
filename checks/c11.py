"""C11: every instrument definition is complete and loads the scattering tables made for that instrument."""
import ast
import cmath
import math
import os

from . import base
from .scen import *  # noqa
from engine.values import *  # noqa

SITES = ("sgp", "nsa", "awr", "ena", "mos", "micre", "SGP")
KEYS = {"mie_table": ("cl", "pl", "ci", "pi"), "scat_table": ("E3_ice", "CESM_ice", "p3_ice"),
        "bulk_table": ("E3_ice", "E3_liq", "mie_ice_E3_PSD", "CESM_ice", "CESM_liq", "mie_ice_CESM_PSD", "p3_ice",
                       "p3_liq", "mie_ice_P3_PSD")}
LIQUID = ("cl", "pl", "E3_liq", "CESM_liq", "p3_liq")
FAMILY = {"E3_ice": "c6", "E3_liq": "c6", "mie_ice_E3_PSD": "c6", "CESM_ice": "mdad", "CESM_liq": "mdad", "p3_liq": "mdad",
          "mie_ice_CESM_PSD": "mdad", "p3_ice": "p3", "mie_ice_P3_PSD": "p3"}
SPACE = ("CALIOP",)
C = 299792458.0
UNIT = {"Hz": 1., "hertz": 1., "kHz": 1e3, "MHz": 1e6, "GHz": 1e9, "gigahertz": 1e9, "megahertz": 1e6, "meter": 1.,
        "m": 1., "metre": 1., "mm": 1e-3, "millimeter": 1e-3, "micrometer": 1e-6, "um": 1e-6, "micron": 1e-6,
        "nanometer": 1e-9, "nm": 1e-9, "cm": 1e-2, "centimeter": 1e-2}


def classes():
    """(name, parameters, defaults) of each instrument class, bases resolved within the module"""
    p = os.path.join(base.REPO, "emc2/core/instruments.py")
    tree = ast.parse(open(p).read())
    cl = {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}

    def base_ok(n, depth=0):
        if depth > 6 or n not in cl:
            return n == "Instrument"
        return any(base_ok(b.id if isinstance(b, ast.Name) else getattr(b, "attr", ""), depth + 1)
                   for b in cl[n].bases)

    def init(n):
        if n not in cl:
            return None
        for f in cl[n].body:
            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                return f
        for b in cl[n].bases:
            if isinstance(b, ast.Name):
                f = init(b.id)
                if f is not None:
                    return f
        return None
    out = []
    for n, c in cl.items():
        if n not in D.INSTRUMENTS or not base_ok(n):
            continue
        f = init(n)
        if f is None:
            continue
        a = f.args
        need = [x.arg for x in a.args[1:len(a.args) - len(a.defaults)]]
        if [x for x in need if x != "site"]:
            continue
        names = [x.arg for x in a.args][1:]
        out.append((n, tuple(names), len(a.defaults), a.vararg is not None, c.lineno))
    return out


def tasks(tier):
    out = []
    for n, names, nd, va, line in classes():
        sites = SITES if "site" in names else (None,)
        for site in sites:
            for sc in ((None, True, False) if "supercooled" in names else (None,)):
                out.append(("inst", n, site, sc, False, line))
            if va:
                out.append(("inst", n, site, True if "supercooled" in names else None, True, line))
    return out


def num(t):
    """number of a constant quantity in SI units, or None"""
    if not isinstance(t, tm.T):
        return t if isinstance(t, (int, float, complex)) and not isinstance(t, bool) else None
    if t is tm.NAN if hasattr(tm, "NAN") else t.op == "nan":
        return float("nan")
    if t.op == "c":
        return t.args[0] if isinstance(t.args[0], (int, float, complex)) else None
    if t.op == "mul":
        r = 1.0
        for a in t.args:
            x = num(a)
            if x is None:
                return None
            r *= x
        return r
    if t.op == "add":
        xs = [num(a) for a in t.args]
        return None if None in xs else sum(xs)
    if t.op == "pow":
        a, b = num(t.args[0]), num(t.args[1])
        try:
            return None if a is None or b is None else a ** b
        except Exception:
            return None
    if t.op == "extm" and len(t.args) == 2:
        x = t.args[1].args[0] if isinstance(t.args[1], tm.T) else t.args[1]
        return UNIT.get(str(x))
    if t.op in ("mag", "to"):
        if t.args and "UnitRegistry" in tm.show(t.args[0], 2) and t.op == "mag" and t.args[0].op == "ext":
            return 1.0
        if t.op == "mag" and isinstance(t.args[0], tm.T) and t.args[0].op == "to":
            q = t.args[0]
            x = num(q.args[0])
            u = q.args[1].args[0] if isinstance(q.args[1], tm.T) else q.args[1]
            return None if x is None or str(u) not in UNIT else x / UNIT[str(u)]
        return num(t.args[0])
    return None


def source(s, v):
    """file a table was read from"""
    if isinstance(v, Ref):
        n = s.node(v.addr)
        if isinstance(n, DS) and n.src and n.src[0] == "lut":
            return {str(n.src[1])}
        if isinstance(n, DS):
            out = set()
            for a in n.vars.values():
                x = s.node(a)
                out |= {str(l.args[0]) for l in tm.deps(s.view(x.buf, x.path)) if l.op == "lut"}
            return out
    try:
        return {str(l.args[0]) for l in tm.deps(s.term(v)) if l.op == "lut"}
    except Exception:
        return set()


def rows(path):
    with open(os.path.join(base.REPO, path)) as f:
        for l in f:
            l = l.replace(",", " ").split()
            if l:
                return [float(x) for x in l]
    return []


def build(s, task):
    _, n, site, sc, dh, line = task
    cl = {c[0]: c for c in classes()}
    names, nd = cl[n][1], cl[n][2]
    kw, pos = {}, []
    for x in names:
        if x == "site":
            v = site
        elif x == "supercooled":
            v = sc
        else:
            v = 90. if dh and "angle" in x else None
        if dh:
            pos.append(v)
        elif v is not None:
            kw[x] = v
    if dh:
        if None in pos:
            return None
        pos.append("DHARMA")
    s.input_src = ("lut",)
    try:
        return s.call(s.get("emc2.core.instruments", n), [py_(s, x) for x in pos], {k: py_(s, v) for k, v in
                                                                                      kw.items()})
    finally:
        s.input_src = ("in",)


def py_(s, v):
    return D.py(s, v)


def fn(s, task, o):
    _, n, site, sc, dh, line = task
    fresh(s)
    cfg = "%s(%s)" % (n, ", ".join(x for x in (
        site and "site=%r" % site, sc is not None and "supercooled=%s" % sc, dh and "'DHARMA'") if x))
    ref = ("/repo/emc2/core/instruments.py", line, n)

    def bad(key, msg):
        o.find("%s:%s" % (n, key), "%s: %s" % (cfg, msg), ref)
    try:
        i = build(s, task)
    except AbsRaise as e:
        exc = e.args[0][0] if e.args and isinstance(e.args[0], tuple) else str(e)
        explicit = [x for x in s.events if x.kind == "raise" and x.data.get("explicit")]
        if site is not None and "ValueError" in str(exc) and explicit:
            o.n("rejected_sites")
            return
        o.n("obligations")
        bad("constructor", "cannot be created: %s" % (e,))
        return
    if i is None:
        o.unk(cfg)
        return
    o.n("instruments_built")
    f = s.config(i)
    g = lambda k: f.get(k)  # noqa
    kind = g("instrument_class")
    if kind not in ("radar", "lidar"):
        if isinstance(kind, str):
            bad("instrument_class", "instrument_class is %r" % kind)
        else:
            o.unk("%s instrument_class" % cfg)
        return
    radar = kind == "radar"
    # frequency and wavelength belong together
    fr, wl = num(g("freq")), num(g("wavelength"))
    if fr is not None and wl is not None:
        o.n("obligations")
        if not (fr > 0 and abs(fr * wl * 1e-6 / C - 1) < 1e-3):
            bad("frequency", "frequency %g Hz and wavelength %g micrometers do not belong together" % (fr, wl))
        if radar != (wl > 100):
            bad("band", "a %s with a wavelength of %g micrometers" % (kind, wl))
    else:
        o.unk("%s freq/wavelength" % cfg)
    # values the calculations read
    for k in (("K_w", "Z_min_1km", "theta", "pt") if radar else ("ext_OD", "eta")):
        v = num(g(k))
        if v is None:
            if k in f and not isinstance(f[k], tm.T):
                o.n("obligations")
                bad("%s:undefined" % k, "%s is %r" % (k, f[k]))
            else:
                o.unk("%s %s" % (cfg, k))
            continue
        o.n("obligations")
        if isinstance(v, complex) or math.isnan(v) or math.isinf(v):
            bad("%s:undefined" % k, "%s is not set" % k)
        elif k == "K_w" and not 0 < v <= 1 or k == "eta" and not 0 < v <= 1 or k in (
                "ext_OD", "theta", "pt") and v <= 0:
            bad("%s:range" % k, "%s is %g" % (k, v))
    v = g("OD_from_sfc")
    o.n("obligations")
    if v not in (True, False):
        if not isinstance(v, tm.T):
            bad("OD_from_sfc", "OD_from_sfc is %r" % (v,))
    elif v is (n in SPACE):
        bad("OD_from_sfc", "a %s instrument with OD_from_sfc=%s" % (
            "spaceborne" if n in SPACE else "ground-based", v))
    # tables: present, on disk, made for this instrument and for the right phase
    files = {}
    for tb, keys in KEYS.items():
        try:
            d = s.node(s.field(i, tb).addr)
        except Exception:
            o.unk("%s %s" % (cfg, tb))
            continue
        for k in keys:
            o.n("tables")
            if k not in d.items:
                if not d.extra and d.auto is None if hasattr(d, "auto") else not getattr(d, "extra", None):
                    bad("%s:%s:missing" % (tb, k), "%s has no %r entry" % (tb, k))
                continue
            src = source(s, d.items[k])
            if len(src) != 1:
                o.unk("%s %s[%s] from %s" % (cfg, tb, k, sorted(src)))
                continue
            files[tb, k] = src.pop()
    waves = {m: w for m, w in WAVES.items()}
    mine = wl
    for (tb, k), p in sorted(files.items()):
        q = os.path.basename(p)
        low = q.lower()
        o.n("obligations")
        if not os.path.exists(os.path.join(base.REPO, p)):
            bad("%s:%s:file" % (tb, k), "%s[%r] reads %s, which does not exist" % (tb, k, p))
            continue
        if (k in LIQUID) != ("liq" in low):
            bad("%s:%s:phase" % (tb, k), "%s[%r] reads %s, a table of the other phase" % (tb, k, q))
        if k in FAMILY and tb != "mie_table":
            has = {x for x in ("c6", "mdad", "p3") if x in low}
            if has and FAMILY[k] not in has:
                bad("%s:%s:family" % (tb, k), "%s[%r] reads %s, a table of another size distribution" % (tb, k, q))
        if tb == "bulk_table" and k.startswith("mie_ice") and FAMILY[k] != "p3" and "mie_ice" not in low \
                or k in ("E3_ice", "CESM_ice") and "mie" in low:
            bad("%s:%s:shape" % (tb, k), "%s[%r] reads %s, a table for another ice particle shape" % (tb, k, q))
        # temperature variant
        if k in LIQUID:
            stem, ext = os.path.splitext(p)
            cold = stem.endswith("_c")
            sup = sc is not False
            other = (stem[:-2] if cold else stem + "_c") + ext
            if os.path.exists(os.path.join(base.REPO, other)) and cold != sup:
                bad("%s:%s:temperature" % (tb, k), "%s[%r] reads %s for %s water" % (
                    tb, k, q, "supercooled" if sup else "warm"))
        # the wavelength the file was made for, or the instrument its name carries
        w = None
        if low.endswith(".dat") and tb in ("mie_table", "scat_table"):
            r = rows(p)
            if r:
                w = C / (r[0] * 1e9) * 1e6 if radar and tb == "scat_table" else r[0]
        if w and mine and not isinstance(mine, complex):
            best = min(abs(math.log(w / x)) for x in waves.values())
            own = abs(math.log(w / mine))
            if own > best + 1e-3 or own > 0.35:
                bad("%s:%s:wavelength" % (tb, k), "%s[%r] reads %s, made for %.4g micrometers, not for %.4g" % (
                    tb, k, q, w, mine))
        else:
            toks = set(os.path.splitext(q)[0].replace("Mie", "Mie_").split("_"))
            named = toks & set(NAMES)
            if named and mine:
                near = [x for x in named if abs(math.log(NAMES[x] / mine)) < 0.02]
                if not near:
                    bad("%s:%s:instrument" % (tb, k), "%s[%r] reads %s, a table of another instrument" % (tb, k, q))
    m = {k: v for (tb, k), v in files.items() if tb == "mie_table"}
    if m.get("ci") and m.get("ci") == m.get("pi"):
        bad("mie_table:pi:class", "cloud and precipitating ice share the table %s" % m["ci"])
    if dh and m.get("pi"):
        stem, ext = os.path.splitext(m["pi"])
        if os.path.exists(os.path.join(base.REPO, stem + "1" + ext)):
            bad("mie_table:pi:DHARMA", "the DHARMA option does not select the low-density table of precipitating ice")
    elif m.get("pi", "").endswith("_pi1.dat"):
        bad("mie_table:pi:density", "the low-density table of precipitating ice is read without the DHARMA option")
    if m.get("cl") and m.get("pl") and m["cl"] != m["pl"]:
        bad("mie_table:pl:class", "cloud and rain read different liquid tables %s, %s" % (m["cl"], m["pl"]))
    # dielectric constant of the liquid tables
    e = num(g("eps_liq"))
    if e is None:
        if isinstance(g("eps_liq"), tm.T):
            o.unk("%s eps_liq" % cfg)
        else:
            bad("eps_liq:undefined", "eps_liq is not set")
    elif m.get("cl") and os.path.exists(os.path.join(base.REPO, m["cl"])):
        r = rows(m["cl"])
        o.n("obligations")
        if len(r) > 4:
            n_ = cmath.sqrt(e)
            if n_.real < 0:
                n_ = -n_
            if abs(n_.real / r[3] - 1) > 2e-3 or abs(n_.imag - r[4]) > 2e-3 * abs(r[4]) + 1e-9:
                o.find("refractive-index:%s" % os.path.basename(m["cl"]),
                       "%s: eps_liq is the square of %.6g%+.3gj, its liquid table %s was made with %.6g%+.3gj" % (
                           cfg, n_.real, n_.imag, os.path.basename(m["cl"]), r[3], r[4]), ref)
    # classification thresholds
    th = g("beta_p_phase_thresh")
    if th and isinstance(th, (list, tuple)) and all(isinstance(x, dict) for x in th):
        o.n("obligations")
        try:
            curves = []
            for x in th:
                l, b = [float(num(y)) for y in x["LDR"]], [float(num(y)) for y in x["beta_p"]]
                if len(l) != len(b):
                    bad("beta_p_phase_thresh:length", "LDR and beta_p thresholds of %r differ in length" % x["class"])
                    return
                if l != sorted(l) or l[0] != 0 or l[-1] < 1:
                    bad("beta_p_phase_thresh:range", "LDR bounds of %r do not rise from 0 to 1" % x["class"])
                    return
                curves.append((x["class"], l, b))
            ids = [num(x["class_ind"]) for x in th]
            if len(set(ids)) != len(ids) or sorted(ids) != list(range(1, len(ids) + 1)):
                bad("beta_p_phase_thresh:codes", "class codes are %s" % ids)
            for (na, la, ba), (nb, lb, bb) in zip(curves, curves[1:]):
                for x in sorted(set(la) | set(lb)):
                    if interp(x, lb, bb) < interp(x, la, ba) * (1 - 1e-9):
                        bad("beta_p_phase_thresh:order", "the beta_p threshold of %r is below that of %r at LDR %g; "
                            "thresholds must be listed from low to high" % (nb, na, x))
                        break
        except (KeyError, TypeError, ValueError) as ex:
            o.unk("%s thresholds %r" % (cfg, ex))


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for a, b, c, d in zip(xs, xs[1:], ys, ys[1:]):
        if x <= b:
            return c + (d - c) * (x - a) / (b - a) if b > a else d
    return ys[-1]


# nominal wavelengths (micrometers) of the supported instruments: ARM handbooks and the class docstrings
WAVES = {"NEXRAD": C / 3.0e9 * 1e6, "CSAPR": C / 6.25e9 * 1e6, "XSACR": C / 9.71e9 * 1e6, "KAZR": C / 34.86e9 * 1e6,
         "WACR": C / 95.04e9 * 1e6, "RL": 0.355, "HSRL": 0.532, "CEIL": 0.910, "1064nm": 1.064}
NAMES = dict(WAVES)


def main(tier):
    return base.main("C11", tasks(tier), fn,
              "Every instrument class is constructed abstractly for each site and liquid temperature it accepts, and "
              "with the documented 'DHARMA' option; the attributes its kind of calculation reads are required to be "
              "set and in range, frequency and wavelength to agree, each table the simulator selects to be present, "
              "on disk, of the right phase, family and temperature and made for the instrument's wavelength (read "
              "from the table file's own columns), and the dielectric constant to equal the squared refractive index "
              "the liquid table was computed with.",
              ["The first columns of the text tables (wavelength or frequency, refractive index) describe the file.",
               "NetCDF tables are identified by their file name.",
               "CALIOP is the only spaceborne instrument."], tier=tier)
