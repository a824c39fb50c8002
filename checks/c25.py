"""C25: every stored output is self-describing."""
import re

from . import base, c14
from .scen import *  # noqa

QUICK = ["ModelE", "E3SMv1", "E3SMv3", "CESM2", "WRF_nssl", "DHARMA_pir"]
# quantity -> (fields it names, words that name it, units)
Q = [
    ("reflectivity", r"sub_col_Ze_.*|Ze_min", ("reflectivity", "ze"), "dBZ"),
    ("Doppler velocity", r"sub_col_Vd_.*", ("velocity", "fall speed"), "m s-1"),
    ("spectral width", r"sub_col_sigma_d_.*", ("width", "spectral broadening"), "m s-1"),
    ("backscatter", r"sub_col_beta_.*", ("backscatter",), "m-1 sr-1"),
    ("extinction", r"sub_col_alpha_p_.*", ("extinction",), "m-1"),
    ("optical depth", r"sub_col_OD_.*|u_atm", ("optical depth", "optical thickness"), "1"),
    ("depolarization", r"sub_col_LDR_.*", ("depolarization", "depolarisation", "ldr"), "1"),
    ("transmittance", r"hyd_ext_.*|atm_ext|tau", ("transmittance", "transmission"), "1"),
    ("scattering ratio", r"COSP_SR_.*", ("scattering ratio",), "1"),
    ("total ATB", r"COSP_ATBtot_.*", ("atb_tot", "total attenuated", "total atb"), "m-1 sr-1"),
    ("cross-polarised ATB", r"COSP_ATBcross_.*", ("atb_cross", "cross"), "m-1 sr-1"),
    ("mixing ratio", r"(conv|strat)_q_subcolumns_.*", ("q", "mixing ratio"), "kg kg-1"),
    ("number concentration", r"(conv|strat)_n_subcolumns_.*", ("n", "number"), "cm-3"),
    ("occupancy", r"(conv|strat)_frac_subcolumns_.*", ("is there", "present", "fraction", "occupan"), None),
    ("mask", r".*phase_mask_(?!.*_(fpr|mpr|mpr_sum)$).*|.*COSP_phase_mask|detect_mask|ext_mask",
     ("mask", "classification", "detection output"), None),
    ("phase ratio", r".*_(fpr|mpr|mpr_sum|mpr_q)$|mpr_q", ("phase ratio",), "1"),
    ("gaseous attenuation", r"kappa_(att|o2|wv)", ("gaseous attenuation", "attenuation"), "dB km-1"),
    ("molecular number density", r"N_s", ("number density",), "m-3"),
    ("molecular extinction", r"beta", ("extinction",), "m-1"),
    ("molecular mass extinction", r"kappa", ("mass extinction",), "m2 kg-1"),
    ("molecular volume backscatter", r"sigma_180_vol", ("volume backscatter",), "m-1"),
    ("molecular backscatter", r"sigma_180", ("backscatter",), "m2"),
    ("molecular scattering", r"sigma", ("scattering",), "m2"),
    ("PSD slope", r"lambda", ("slope",), "m-1"),
    ("PSD shape", r"mu", ("shape",), "1"),
]
SCALE = {"": 1.0, "c": 1e-2, "k": 1e3, "m": 1e-3, "h": 1e2, "u": 1e-6, "n": 1e-9, "d": 0.1}
BASE = {"m", "s", "g", "sr", "dB", "dBZ", "Pa", "K", "J"}
NODIM = {"1", "", "unitless", "dimensionless", "-", "none"}


def tasks(tier):
    ms = QUICK if tier == "quick" else SIM_MODELS
    ii = ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "WACR", "HSRL", "RL", "CALIOP", "CEIL")
    out = []
    for m in ms:
        for i in ii:
            for lg in LOGICS:
                for od in (True, False):
                    out.append((m, i, lg, od))
    return out


def units(t):
    """units text -> (scale, {base: exponent}) or None if the text cannot be read"""
    t = t.replace("$", " ").replace("\\", " ").replace("~", " ").strip()
    t = re.sub(r"mathrm|text|rm\b", " ", t)
    t = re.sub(r"[{}^*]", "", t.replace("**", "^"))
    if t.strip().lower() in NODIM:
        return 1.0, {}
    num, sign = {}, 1
    scale = 1.0
    for tok in re.findall(r"/|[A-Za-z]+-?\d*|\S+", t):
        if tok == "/":
            sign = -1
            continue
        mm = re.match(r"^([A-Za-z]+)(-?\d+)?$", tok)
        if not mm:
            return None
        u, e = mm[1], sign * int(mm[2] or 1)
        if u in BASE:
            p = ""
        elif u[1:] in BASE and u[0] in SCALE:
            p, u = u[0], u[1:]
        else:
            return None
        scale *= SCALE[p] ** e
        num[u] = num.get(u, 0) + e
    return scale, {a: b for a, b in num.items() if b}


def words(d):
    return [x for x in re.split(r"[^A-Za-z0-9]+", d.lower().replace("_", " ")) if x]


CT = {"conv": "conv", "convective": "conv", "convection": "conv", "strat": "strat", "stratiform": "strat",
      "startiform": "strat"}


def named(d, ws):
    ws = [w.lower() for w in ws]
    low = d.lower()
    toks = set(words(d))
    return any((w in toks) if len(w) <= 3 else (w in low) for w in ws)


def attributes(c):
    s = c.s
    dn = s.dsnode(c.m)
    out = {}
    for k in outputs(c):
        if k == "subcolumn":
            continue
        d = s.node(dn.vars[k])
        n = s.node(d.attrs)
        a = {x: s.pyval(y) for x, y in n.items.items()}
        out[k] = (a, n.auto is not None or bool(n.extra))
    return out


def text(v):
    return v if isinstance(v, str) else None


def fn(s, task, o):
    mname, inst, lg, od = task
    c = setup(s, mname, inst, od=od)
    cfg = "%s %s %s logic, %s" % (mname, inst, lg, "ground-based" if od else "downward-looking")
    c14.produced(c, mname, inst, lg)
    w = writes(c)
    first = attributes(c)
    for k in sorted(first):
        judge(c, o, cfg, k, first[k], lg, od, w.get(k))
    # the same outputs described after an earlier run with another logic
    if od:
        prev = {"rad": "micro", "micro": "empirical", "empirical": "rad"}[lg]
        c = setup(s, mname, inst, od=od)
        simulate(c, **LOGICS[prev])
        c.events = []
        c14.produced(c, mname, inst, lg)
        w = writes(c)
        again = attributes(c)
        for k in sorted(set(first) & set(again)):
            if first[k][1] or again[k][1]:
                continue
            o.n("obligations")
            a, b = first[k][0], again[k][0]
            for x in sorted(set(a) | set(b)):
                if a.get(x) != b.get(x) and all(isinstance(y, (str, int, float, type(None), list)) for y in
                                                (a.get(x), b.get(x))):
                    o.find("stale:%s:%s" % (x, c14.gen(c, k)), "%s: %s says %s = %r, after a %s run before %r" % (
                        cfg, k, x, a.get(x), prev, b.get(x)), w.get(k))
    if len(o.samples) < 1 and first:
        k = sorted(first)[-1]
        o.samples.append("%s: %s -> %s" % (cfg, k, first[k][0]))


def judge(c, o, cfg, k, at, lg, od, ev):
    a, unknown = at
    g = c14.gen(c, k)
    for need in ("long_name", "units"):
        o.n("obligations")
        alt = [x for x in ((need,) if need == "units" else ("long_name", "description", "standard_name")) if x in a]
        if not alt:
            if unknown:
                o.unk("%s: attributes of %s not followed" % (cfg, k))
            else:
                o.find("missing:%s:%s" % (need, g), "%s: %s has no %s" % (cfg, k, need), ev)
    d = next((text(a[x]) for x in ("long_name", "description", "standard_name") if x in a), None)
    if d is None or "?" == d:
        return
    if not d.strip():
        o.find("missing:long_name:%s" % g, "%s: %s has an empty description" % (cfg, k), ev)
        return
    parts = k.split("_")
    sig = k.startswith("sub_col_") or "phase_mask" in k
    # cloud type
    o.n("obligations")
    mine = [x for x in ("conv", "strat") if x in parts]
    said = {CT[x] for x in words(d) if x in CT}
    if mine:
        if said - set(mine) or sig and not said:
            o.find("cloud:%s" % g, "%s: %s is described as %r" % (cfg, k, d), ev)
    elif sig and len(said) == 1 and c.conv:
        o.find("cloud:%s" % g, "%s: %s holds both cloud types and is described as %r" % (cfg, k, d), ev)
    # class
    o.n("obligations")
    cls = [x for x in c.all_classes if x in parts]
    sc = {x for x in words(d) if x in c.all_classes}
    if cls:
        bad = sc - set(cls)
        phase = "ice" if cls[0] in ("cl", "pl") else "liquid"
        if bad or k.startswith("sub_col_") and not sc or phase in words(d):
            o.find("class:%s" % g, "%s: %s is described as %r" % (cfg, k, d), ev)
    elif sc:
        o.find("class:%s" % g, "%s: %s is described as %r" % (cfg, k, d), ev)
    # quantity
    o.n("obligations")
    own = [q for q in Q if re.match("(%s)$" % q[1], k)]
    if own:
        q = own[0]
        if not named(d, q[2]):
            other = [x[0] for x in Q if x[0] != q[0] and any(len(y) > 3 for y in x[2]) and named(
                d, [y for y in x[2] if len(y) > 3])]
            if other or k.startswith("sub_col_"):
                o.find("quantity:%s" % g, "%s: %s (%s) is described as %r" % (cfg, k, q[0], d), ev)
        elif q[0] in ("reflectivity", "backscatter") and "Ze_min" != k:
            if ("attenuated" in words(d)) != ("att" in parts) and "unattenuated" not in words(d):
                o.find("quantity:%s" % g, "%s: %s (%sattenuated) is described as %r" % (
                    cfg, k, "" if "att" in parts else "un", d), ev)
        if q[3] is not None and text(a.get("units")) is not None:
            o.n("obligations")
            u, v = units(a["units"]), units(q[3])
            if u is None:
                o.unk("%s: units %r of %s" % (cfg, a["units"], k))
            elif u[1] != v[1] or abs(u[0] / v[0] - 1) > 1e-9:
                o.find("units:%s" % g, "%s: %s (%s, %s) carries units %r" % (cfg, k, q[0], q[3], a["units"]), ev)
    # geometry
    o.n("obligations")
    low = d.lower()
    wrong = ("layer top", "from toa") if od else ("layer base", "from surface")
    if any(x in low for x in wrong):
        o.find("geometry:%s" % g, "%s: %s is described as %r" % (cfg, k, d), ev)
    # logic
    m = text(a.get("Processing method"))
    if m is not None:
        o.n("obligations")
        m = m.lower()
        lgx = lg
        if k.startswith(("sub_col", "hyd_ext")) and lg == "micro" and "conv" in parts:
            lgx = "rad"        # convective signals always follow the radiation logic
        if not k.startswith(("sub_col", "hyd_ext")) and lg == "empirical":
            lgx = "rad"
        word = {"rad": "radiation", "micro": "microphysics", "empirical": "empiric"}[lgx]
        if word not in m and any(x in m for x in ("radiation", "microphysics", "empiric")):
            o.find("logic:%s" % g, "%s: %s (%s logic) carries Processing method %r" % (cfg, k, lgx, m), ev)
    sc = text(a.get("Ice scattering database"))
    if sc is not None and len(cls) == 1 and cls[0] not in ("cl", "pl"):
        o.n("obligations")
        t = outputs(c)[k]
        lut = {l.args[0] for l in tm.deps(t) if l.op == "lut" and isinstance(l.args[0], str)}
        lut = {x for x in lut if x.startswith(("bulk_table", "scat_table", "mie_table"))}
        mie = {x for x in lut if "mie" in x.lower()}
        low = sc.lower()
        if lut and not has_unknown(t):
            if "empirical" in low or (low.startswith("mie") and not mie) or (
                    not low.startswith("mie") and mie == lut):
                o.find("database:%s" % g, "%s: %s is computed from %s and carries database %r" % (
                    cfg, k, sorted(lut)[:3], sc), ev)


def main(tier):
    return base.main(
        "C25", tasks, fn, tier=tier,
        explanation=("The generator, simulator, classification and phase-ratio steps are interpreted abstractly with "
                     "attribute dictionaries tracked through every array operation (arithmetic drops them, as in "
                     "xarray). Each field left in the model dataset must carry a description and units; the cloud type, "
                     "class, quantity, viewing geometry, processing logic and ice scattering database they name must be "
                     "those of the field; units must denote the unit of the quantity; and they must be the same after "
                     "an earlier run with another logic."),
        assumptions=["xarray drops attributes in arithmetic and keeps them in where/fillna/astype (keep_attrs default)",
                     "texts that name nothing are not judged beyond their presence"])
