"""C12: scattering-table columns carry the unit and the name of what they hold."""
import math
import re

from . import base
from .scen import *  # noqa
from engine.values import *  # noqa

PI = math.pi

# quantity -> (position in the file, unit in the file, further factor of the file's convention)
MIE = dict(wavelength=(0, "um", 1), p_diam=(1, "um", 2), size_parameter=(2, "1", 1), compre_real=(3, "1", 1),
           compre_im=(4, "1", 1), scat_p=(5, "um^2", 1), alpha_p=(6, "um^2", 1), beta_p=(7, "um^2", 1 / (4 * PI)),
           scat_eff=(8, "1", 1), ext_eff=(9, "1", 1), backscat_eff=(10, "1", 1 / (4 * PI)))


def scat_cols(radar, kind):
    n = [("frequency", "GHz") if radar else ("wavelength", "um"), ("p_diam", "um"), ("p_diam_eq_A", "um"),
         ("p_diam_eq_V", "um")]
    if kind == "mDAD":
        n.append(("p_diam_eq_VdivA", "um"))
    n += [("V", "um^3"), ("A", "um^2"), ("beta_p", "um^2"), ("scat_p", "um^2"), ("alpha_p", "um^2")]
    if kind == "C6":
        n.append(("beta_p_cross", "um^2"))
    return {q: (i, u, 1) for i, (q, u) in enumerate(n)}


def bulk_cols(kind):
    if kind == "C6":
        n = [("r_e", "um"), ("Q_scat", "1"), ("Q_ext", "1"), ("Q_back", "sr^-1"), ("Q_back_cross", "sr^-1"),
             ("LDR", "1"), ("lidar_ratio", "sr")]
        return {q: (i, u, 1) for i, (q, u) in enumerate(n)}
    n = [("D_e", "um"), ("Q_scat", "1"), ("Q_ext", "1"), ("Q_back", "sr^-1"), ("lidar_ratio", "sr")]
    out = {q: (i, u, 1) for i, (q, u) in enumerate(n)}
    out["r_e"] = (0, "um", 0.5)
    return out


# the P3 table is a netCDF file with labels of its own; these columns are in microns
P3 = {"beta_p": "um^2/(m^3 * sr)", "alpha_p": "um^2/m^3", "A": "um^2", "A_tot_norm": "um^2",
      "A_tot_Mie_norm": "um^2", "beta_p_eq_VdivA": "um^2/(m^3 * sr)", "alpha_p_eq_VdivA": "um^2/m^3",
      "A_tot_eq_VdivA_norm": "um^2", "beta_p_eq_V": "um^2/(m^3 * sr)", "alpha_p_eq_V": "um^2/m^3",
      "A_tot_eq_V_norm": "um^2", "V": "um^3", "D_eq_VdivA_sphere": "um", "D_eq_vol_sphere": "um"}
SI = {"p_diam", "p_diam_eq_A", "p_diam_eq_V", "p_diam_eq_VdivA", "V", "A", "alpha_p", "beta_p", "scat_p",
      "beta_p_cross"} | set(P3)

UNITS = {"m": (1, 1), "meter": (1, 1), "metre": (1, 1), "um": (1e-6, 1), "micron": (1e-6, 1), "micrometer": (1e-6, 1),
         "micrometre": (1e-6, 1), "nm": (1e-9, 1), "cm": (1e-2, 1), "mm": (1e-3, 1), "km": (1e3, 1)}
OTHER = {"ghz": 1e9, "mhz": 1e6, "khz": 1e3, "hz": 1.}


def unit(text):
    """(scale of the length part, its power, rest) or None"""
    t = str(text).strip().replace("$", "").replace("{", "").replace("}", "").replace("\\mu", "u").replace("**", "^")
    if t in ("1", "", "unitless", "dimensionless", "none"):
        return 1., 0, ""
    sc, p, rest = 1., 0, []
    den = False
    for tok in re.findall(r"[A-Za-zµ]+(?:\^?-?\d+)?|/|\(|\)|\*|1", t.replace("\\ ", " ")):
        if tok == "/":
            den = True
            continue
        if tok in ("(", ")", "*", "1"):
            continue
        m = re.match(r"([A-Za-zµ]+)\^?(-?\d+)?$", tok)
        w, e = m.group(1).replace("µ", "u"), int(m.group(2) or 1) * (-1 if den else 1)
        lw = w if w in UNITS else w.lower().rstrip("s") if len(w) > 2 else w
        if lw in UNITS:
            k, q = UNITS[lw]
            sc *= k ** e
            p += q * e
        elif w.lower() in OTHER:
            sc *= OTHER[w.lower()] ** e
            rest.append("hz^%d" % e)
        elif w.lower() in ("sr", "steradian"):
            rest.append("sr^%d" % e)
        else:
            return None
    return sc, p, " ".join(sorted(rest))


def label(v, known):
    """text of a units attribute; known: text the file gives"""
    if isinstance(v, K):
        return v.val if isinstance(v.val, str) else None
    t = getattr(v, "term", None)
    if t is None:
        return None

    def go(x):
        if not isinstance(x, tm.T):
            return x
        if x.op == "attr":
            return known
        if x.op == "str":
            a = [y.args[0] if isinstance(y, tm.T) and y.op == "c" else y for y in x.args]
            b, m = go(a[0]), a[1]
            if isinstance(b, str) and m == "replace" and len(a) == 4:
                return b.replace(str(a[2]), str(a[3]))
            if isinstance(b, str) and m in ("strip", "lower") and len(a) == 2:
                return getattr(b, m)()
        return None
    return go(t)


def factor(t, leaf):
    """constant c with t == c*leaf, or None"""
    if t is leaf:
        return 1.
    r = tm.mul(t, tm.power(leaf, tm.c(-1)))
    if tm.isnum(r) and isinstance(r.args[0], (int, float)):
        return float(r.args[0])
    return None


def close(a, b):
    return abs(a - b) <= 1e-6 * abs(b)


def says(text):
    """the optical quantity a description names"""
    t = str(text).lower()
    ks = []
    if "extinction" in t or re.match(r"ext[_ ]", t):
        ks.append("extinction")
    if re.search(r"back[- ]?_?scat|scat[a-z_]*back|back[ _]", t) or "backcat" in t:
        ks.append("backscattering")
    elif "scat" in t:
        ks.append("scattering")
    return ks[0] if len(ks) == 1 else None


WHAT = {"alpha_p": "extinction", "ext_eff": "extinction", "Q_ext": "extinction", "beta_p": "backscattering",
        "backscat_eff": "backscattering", "Q_back": "backscattering", "beta_p_cross": "backscattering",
        "Q_back_cross": "backscattering", "scat_p": "scattering", "scat_eff": "scattering", "Q_scat": "scattering"}

READERS = [("emc2.io.load_mie_file", "load_mie_file", {}, MIE)]
for _r in (True, False):
    for _k in ("C6", "mDAD"):
        READERS.append(("emc2.io.load_scat_file", "load_scat_file", dict(is_radar=_r, param_type=_k), (_r, _k)))
for _k in ("C6", "mDAD"):
    READERS.append(("emc2.io.load_bulk_scat_file", "load_bulk_scat_file", dict(param_type=_k), _k))


def tasks(tier):
    return [("read", i) for i in range(len(READERS))] + [("mie", f) for f in
            ("scat_properties_water", "scat_properties_ice")] + [("p3", i) for i in INSTRUMENTS]


def fn(s, task, o):
    s.csv_columns = True
    try:
        {"read": read, "mie": mie, "p3": p3}[task[0]](s, task, o)
    finally:
        s.csv_columns = False


def variables(s, v):
    d = s.node(v.addr)
    out = {}
    for k, a in d.vars.items():
        x = s.node(a)
        at = s.node(x.attrs).items if x.attrs else {}
        out[str(k)] = (s.view(x.buf, x.path), at)
    return out


def judge(o, where, src, q, got, want, fu, at, known=None):
    """got: factor the code applies; want: conversion-free factor; fu: file unit"""
    lab = label(at["units"], known) if "units" in at else None
    if lab is None:
        if "units" in at:
            o.unk("%s: unit label of %s" % (where, q))
        return
    u, f = unit(lab), unit(fu)
    if u is None or f is None:
        o.unk("%s: unit %r of %s" % (where, lab, q))
        return
    o.n("obligations")
    if (u[1], u[2]) != (f[1], f[2]):
        if u[1] != f[1] or {u[2], f[2]} != {"", "sr^-1"}:
            o.find("unit:%s:%s" % (where, q), "%s labels %s [%s]; the file holds it in %s" % (where, q, lab, fu), src)
            return
    if not close(got, want * f[0] / u[0]):
        o.find("factor:%s:%s" % (where, q), "%s: %s is labelled [%s] but the values are %.6g times those of the "
               "file (%s); %.6g expected" % (where, q, lab, got, fu, want * f[0] / u[0]), src)
        return
    o.n("obligations")
    if q in SI and u[1] and not close(u[0], 1.):
        o.find("si:%s:%s" % (where, q), "%s returns %s in %s, the calculations take it in metres" % (where, q, lab), src)
    for a in ("long_name", "standard_name"):
        x = at.get(a)
        if q in WHAT and isinstance(x, K) and isinstance(x.val, str):
            o.n("obligations")
            w = says(x.val)
            if w is not None and w != WHAT[q]:
                o.find("name:%s:%s" % (where, q), "%s describes %s (%s) as %r" % (where, q, WHAT[q], x.val), src)
            cross = "cross_" in x.val.lower() and "pol" in x.val.lower() or "cross-pol" in x.val.lower()
            if cross and "cross" not in q:
                o.find("name:%s:%s" % (where, q), "%s describes %s as %r" % (where, q, x.val), src)


def read(s, task, o):
    mod, f, kw, spec = READERS[task[1]]
    if isinstance(spec, tuple):
        spec = scat_cols(*spec)
    elif isinstance(spec, str):
        spec = bulk_cols(spec)
    fresh(s)
    s.events = []
    r = run(s, mod, f, [K("table.dat")], {k: K(v) for k, v in kw.items()})
    where = f + ("(%s)" % ", ".join("%s=%s" % x for x in sorted(kw.items())) if kw else "")
    src = (mod.replace(".", "/") + ".py", None, f)
    if r.raised is not None or not isinstance(r.value, Ref) or not isinstance(s.node(r.value.addr), DS):
        o.unk("%s: %s" % (where, r.raised))
        return
    o.n("readers")
    vs = variables(s, r.value)
    pos = {}
    for t, _ in vs.values():
        for l in tm.deps(t):
            if l.op == "lut":
                pos.setdefault(l.args[1], l)
    for q, (p, fu, k) in sorted(spec.items()):
        o.n("obligations")
        if q not in vs:
            o.find("missing:%s:%s" % (where, q), "%s does not return %s" % (where, q), src)
            continue
        t, at = vs[q]
        ls = [l for l in tm.deps(t) if l.op == "lut"]
        if len(ls) != 1 or len(ls[0].args) != 2 or not isinstance(ls[0].args[1], int):
            o.unk("%s: %s" % (where, q))
            continue
        if ls[0].args[1] != p:
            o.find("column:%s:%s" % (where, q), "%s takes %s from column %d of the file; it is column %d" % (
                where, q, ls[0].args[1] + 1, p + 1), src)
            continue
        g = factor(t, ls[0])
        if g is None:
            o.unk("%s: %s is not the scaled column" % (where, q))
            continue
        judge(o, where, src, q, g, k, fu, at)
        o.samples.append("%s: %s = %.6g * column %d" % (where, q, g, p + 1))
    for q in sorted(set(vs) - set(spec) - {"index"}):
        o.n("extra_columns")


# ------------------------------------------------------------------ Mie calculators

RET = ("d", "ext", "sca", "abs", "g", "pr", "back", "ratio")
EFF = dict(ext_eff="ext", scat_eff="sca", qabs="abs", g="g", qpr="pr", backscat_eff="back", qratio="ratio")
SEC = dict(alpha_p="ext", beta_p="back", scat_p="sca")


def parts(t):
    """MieQ results used in a term: position -> node"""
    out = {}
    for x in tm.nodes([t]):
        if x.op == "idx" and isinstance(x.args[0], tm.T) and "MieQ_withDiameterRange" in str(x.args[0].op):
            i = x.args[1]
            i = i.args[0] if isinstance(i, tm.T) and i.op == "tup" else i
            i = i.args[0] if isinstance(i, tm.T) and tm.isnum(i) else i
            if isinstance(i, int) and 0 <= i < 8:
                out[RET[i]] = x
    return out


def mie(s, task, o):
    f = task[1]
    fresh(s)
    w = opt("wavelength")
    d = opt("diams")
    r = run(s, "emc2.scattering.mie_scattering", f, [d, w, opt("temperature"), opt("pressure")], {})
    src = ("emc2/scattering/mie_scattering.py", None, f)
    if r.raised is not None or not isinstance(r.value, Ref) or not isinstance(s.node(r.value.addr), DS):
        o.unk("%s: %s" % (f, r.raised))
        return
    o.n("calculators")
    vs = variables(s, r.value)
    wt, dt = s.term(w), s.term(d)
    call = None
    for t, _ in vs.values():
        for x in parts(t).values():
            call = x.args[0]
    if call is None:
        o.unk("%s: Mie call not found" % f)
        return
    # the calculation itself works in nm
    ar = [a for a in call.args if not (isinstance(a, tm.T) and a.op == "kw")]
    kws = {a.args[0]: a.args[1] for a in call.args if isinstance(a, tm.T) and a.op == "kw"}
    wl = kws.get("wavelength", ar[1] if len(ar) > 1 else None)
    if isinstance(wl, tm.T):
        g = factor(wl, wt)
        o.n("obligations")
        if g is None:
            o.unk("%s: wavelength passed" % f)
        elif not close(g, 1e7):
            o.find("mie-wavelength:%s" % f, "%s passes the wavelength (cm) times %g; the Mie routine takes nm" % (f, g), src)
    rg = kws.get("diameterRange")
    if isinstance(rg, tm.T) and rg.op == "tup" and len(rg.args) == 2:
        for x, nm in zip(rg.args, ("min", "max")):
            ns = [y for y in tm.nodes([x]) if y.op in ("min", "max", "nanmin", "nanmax") and y.args[0] is dt]
            if len(ns) != 1:
                continue
            g = factor(x, ns[0])
            o.n("obligations")
            if g is None:
                continue
            if not close(g, 1e3) or nm not in ns[0].op:
                o.find("mie-range:%s" % f, "%s passes %g times the %simum diameter (microns) as the %s of the "
                       "range in nm" % (f, g, ns[0].op.replace("nan", ""), "lower end" if nm == "min" else "upper end"), src)
    for q, e in sorted(EFF.items()):
        if q not in vs:
            continue
        t, at = vs[q]
        p = parts(t)
        o.n("obligations")
        if len(p) != 1:
            o.unk("%s: %s" % (f, q))
            continue
        (k, x), = p.items()
        g = factor(t, x)
        if k != e:
            o.find("mie-result:%s:%s" % (f, q), "%s returns as %s what the Mie routine returns as q%s" % (f, q, k), src)
        elif g is not None:
            if q in WHAT:
                judge(o, f, src, q, g, 1, "1", at)
            elif not close(g, 1):
                o.find("factor:%s:%s" % (f, q), "%s scales %s by %g" % (f, q, g), src)
    for q, e in sorted(SEC.items()):
        if q not in vs:
            o.find("missing:%s:%s" % (f, q), "%s does not return %s" % (f, q), src)
            continue
        t, at = vs[q]
        p = parts(t)
        o.n("obligations")
        eff = sorted(set(p) - {"d"})
        if len(eff) != 1 or "d" not in p:
            o.unk("%s: %s" % (f, q))
            continue
        if eff[0] != e:
            o.find("mie-result:%s:%s" % (f, q), "%s computes %s from q%s instead of q%s" % (f, q, eff[0], e), src)
            continue
        g = factor(tm.mul(t, tm.power(p[e], tm.c(-1))), tm.power(p["d"], tm.c(2)))
        if g is None:
            o.find("mie-area:%s:%s" % (f, q), "%s: %s is not its efficiency times the particle's cross section" % (
                f, q), src) if not has_unknown(t) else o.unk(f)
            continue
        judge(o, f, src, q, g, PI / 4, "nm^2", at)
    for q, base_, want, fu in (("p_diam", "d", 1, "nm"), ("size_parameter", "d", PI, "1"), ("wavelength", None, 1, "cm")):
        if q not in vs:
            continue
        t, at = vs[q]
        p = parts(t)
        o.n("obligations")
        if q == "p_diam":
            g = factor(t, p["d"]) if "d" in p else None
            if g is None:
                g2 = factor(t, dt)
                if g2 is not None:
                    judge(o, f, src, q, g2, 1, "um", at)
                else:
                    o.unk("%s: %s" % (f, q))
                continue
        elif q == "size_parameter":
            g = factor(tm.mul(t, wt), p["d"]) if "d" in p else None
            fac = 1e-7
            if g is None:
                g = factor(tm.mul(t, wt), dt)
                fac = 1e-4
            if g is None:
                o.unk("%s: %s" % (f, q))
                continue
            if not close(g, PI * fac):
                o.find("factor:%s:%s" % (f, q), "%s: the size parameter is %.6g times pi*diameter/wavelength" % (
                    f, g / (PI * fac)), src)
            continue
        else:
            x = t
            for y in tm.nodes([t]):
                if y.op == "fill" and tm.isnum(y.args[0]) and y.args[0].args[0] == 1:
                    x = tm.subst(x, {y: tm.c(1)})
            g = factor(x, wt) if isinstance(x, tm.T) else None
            if g is None:
                o.unk("%s: %s" % (f, q))
                continue
        judge(o, f, src, q, g, want, fu, at)


# ------------------------------------------------------------------ P3 table

def p3(s, task, o):
    fresh(s)
    try:
        i = raw_instrument(s, task[1])
        it = s.node(s.field(i, "scat_table").addr).items
    except Exception as e:
        o.unk("%s: %s" % (task[1], e))
        return
    key = next((k for k in it if "p3_ice" in str(k)), None)
    if key is None or not isinstance(it[key], Ref) or not isinstance(s.node(it[key].addr), DS):
        o.n("instruments_without_p3")
        return
    o.n("p3_tables")
    where = "P3 ice table"
    src = ("emc2/core/instrument.py", None, "P3 table loading")
    vs = variables(s, it[key])
    d = s.node(it[key].addr)
    for q, (t, at) in sorted(vs.items()):
        ls = [l for l in tm.deps(t) if l.op == "lut"]
        o.n("obligations")
        if len(ls) != 1 or len(ls[0].args) != 2:
            o.unk("%s: %s" % (where, q))
            continue
        own = str(ls[0].args[1])
        if q == "p_diam":
            g = factor(t, ls[0])
            if own != "d":
                o.find("column:%s:%s" % (where, q), "%s: p_diam holds %s" % (where, own), src)
            elif g is None:
                o.unk("%s: p_diam" % where)
            elif not close(g, 1e-6):
                o.find("factor:%s:%s" % (where, q), "%s: p_diam is %g times the diameter d of the file (microns); "
                       "the calculations take metres" % (where, g), src)
            continue
        if own != q:
            if own in P3 or q in P3:
                o.find("column:%s:%s" % (where, q), "%s: %s holds %s" % (where, q, own), src)
            continue
        g = factor(t, ls[0])
        if g is None:
            if q in P3:
                o.unk("%s: %s" % (where, q))
            continue
        if q in P3:
            judge(o, where, src, q, g, 1, P3[q], at if "units" in at else {"units": K(P3[q])}, P3[q])
        elif not close(g, 1):
            lab = label(at["units"], None) if "units" in at else None
            if lab is None:
                o.find("factor:%s:%s" % (where, q), "%s: %s, not in microns in the file, is scaled by %g" % (where, q, g), src)
    for q in sorted(set(P3) - set(vs)):
        o.n("obligations")
        o.find("si:%s:%s" % (where, q), "%s: %s stays in microns, the calculations take metres" % (where, q), src)
    if "p_diam" not in vs:
        o.find("missing:%s:p_diam" % where, "%s: p_diam is not added" % where, src)


def main(tier):
    return base.main(
        "C12", tasks(tier), fn, tier=tier,
        explanation=("Abstract interpretation of every table reader (each option) with one symbolic leaf per file "
                     "column, of the Mie calculators with symbolic Mie results, and of the P3 table as each instrument "
                     "loads it: the returned variable must be the column of that quantity times exactly the "
                     "conversion from the file's unit to the unit its label states; descriptions must not name "
                     "another optical quantity; all tables give particle sizes and cross sections in metres."),
        assumptions=["order and units of the file columns (documented by the file producers; P3: the labels in the netCDF files)",
                     "PyMieScatt returns (diameters nm, qext, qsca, qabs, g, qpr, qback, qratio)"])
