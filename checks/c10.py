"""C10: every model definition is complete and consistent for each hydrometeor class it declares."""
import re

from . import base
from .scen import *  # noqa
from engine.values import *  # noqa

REQUIRED = ("Rho_hyd", "lidar_ratio", "LDR_per_hyd", "vel_param_a", "vel_param_b", "N_field",
            "q_names_stratiform", "q_names_convective", "conv_frac_names", "strat_frac_names",
            "conv_frac_names_for_rad", "strat_frac_names_for_rad", "conv_re_fields", "strat_re_fields")
# fields of different hydrometeor classes must differ
OWN = ("q_names_stratiform", "q_names_convective", "N_field", "strat_re_fields", "conv_re_fields", "q_names",
       "variable_density", "mu_field", "lambda_field")
QUANTITY = {"q_names_stratiform": "mixing ratio", "q_names_convective": "mixing ratio", "q_names": "mixing ratio",
            "N_field": "number concentration", "conv_frac_names": "cloud fraction",
            "strat_frac_names": "cloud fraction", "conv_frac_names_for_rad": "cloud fraction",
            "strat_frac_names_for_rad": "cloud fraction", "conv_re_fields": "effective radius",
            "strat_re_fields": "effective radius", "variable_density": "particle density",
            "mu_field": "shape parameter", "lambda_field": "slope parameter", "T_field": "temperature",
            "q_field": "humidity", "p_field": "pressure", "z_field": "height"}
SECTION = {"q_names_stratiform": "strat", "strat_re_fields": "strat", "strat_frac_names": "strat",
           "strat_frac_names_for_rad": "strat", "q_names_convective": "conv", "conv_re_fields": "conv",
           "conv_frac_names": "conv", "conv_frac_names_for_rad": "conv"}
WORDS = (("cl", ("cl", "liq", "drop")), ("ci", ("ci", "ice")), ("pl", ("pl", "rai", "rain")),
         ("pi", ("pi", "sno", "snow")), ("pir", ("pir",)), ("sn", ("sn", "sno", "snow")),
         ("gr", ("gr", "gra", "graup", "graupel")), ("ha", ("ha", "hail")))
CLASSES = [x[0] for x in WORDS]
STEMS = re.compile(r"^(strat|conv|cld|num|reff|ref|re|qn|q|n|mu|lambda|rho|ad|are|freq|mc|ss|tot|_)+(?=[a-z])")
TAILS = re.compile(r"(?<=[a-z])(mc|ss|qm|frac|strat|conv|_)+$")


def tasks(tier):
    return [("model", m) for m in D.MODELS]


def names_class(name, classes):
    """declared classes whose code is all that is left of a field name"""
    n = name.lower()
    got = set()
    cands = {n}
    for _ in range(4):
        for x in list(cands):
            for y in (STEMS.sub("", x), TAILS.sub("", x)):
                cands.add(y)
            m = re.match(r"^(strat|conv|cld|num|re|qn|q|n|ad|mc|ss|_)(?=.)", x)
            if m:
                cands.add(x[m.end():])
            m = re.search(r"(mc|ss|qm|frac|_)$", x)
            if m and m.start():
                cands.add(x[:m.start()])
    for h in classes:
        for code, words in WORDS:
            if code == h and any(w in cands for w in words):
                got.add(h)
        if h in cands:
            got.add(h)
    return got


def dims(t):
    """(number, {unit: exponent term}) of a quantity with units, or None"""
    num, u = 1.0, {}
    parts = t.args if t.op == "mul" else (t,)
    for p in parts:
        e = 1
        if p.op == "pow":
            p, e = p.args
            e = e.args[0] if e.op == "c" else e
        if p.op == "c":
            if e != 1:
                return None
            num *= p.args[0]
        elif p.op == "extm" and len(p.args) == 2:
            x = str(p.args[1].args[0]) if isinstance(p.args[1], tm.T) else str(p.args[1])
            u[x] = e
        elif p.op == "mag" and p.args and "UnitRegistry" in tm.show(p, 3):
            u["meter"] = e
        else:
            return None
    u.pop("dimensionless", None)
    if "m" in u:
        u["meter"] = u.pop("m")
    if "kilogram" in u:
        u["kg"] = u.pop("kilogram")
    if "s" in u:
        u["second"] = u.pop("s")
    return num, u


def asnum(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return float(v), {}
    if isinstance(v, tm.T):
        if v.op == "c":
            return (float(v.args[0]), {}) if isinstance(v.args[0], (int, float)) else None
        return dims(v)
    return None


def fn(s, task, o):
    _, m = task
    fresh(s)
    try:
        mm = raw_model(s, m)
    except AbsRaise as e:
        x = next((y for y in (e.args, e.args[0] if e.args else ()) if isinstance(y, tuple) and len(y) == 2), ())
        x = tuple(str(y) for y in x)
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "KeyError" and x[1] in CLASSES:
            ev = [v for v in s.events if v.kind == "raise"]
            o.find("%s:constructor:missing" % m, "%s: the constructor fails looking up class %r in one of its own "
                   "tables" % (m, x[1]), ev[-1] if ev else None)
        else:
            o.unk("%s: constructor raises %s" % (m, e))
        return
    f = s.config(mm)
    cls = s.node(mm.addr).cls
    site = (cls.mod.path, getattr(getattr(cls, "node", None), "lineno", None), cls.name) if hasattr(cls, "mod") \
        else None
    test = m.startswith("Test")
    hyd = f.get("hyd_types")
    if not isinstance(hyd, (list, tuple)) or not all(isinstance(x, str) for x in hyd) or not hyd:
        o.unk("%s: hyd_types %r" % (m, hyd))
        return
    hyd = list(hyd)
    try:
        ds = set(s.dsnode(mm).vars)
        terms = s.terms_of(mm)
    except Exception:
        ds, terms = None, {}

    def bad(key, msg):
        o.find("%s:%s" % (cls.name, key), "%s: %s" % (m, msg), site)

    if len(set(hyd)) != len(hyd):
        bad("hyd_types", "hyd_types lists a class twice: %s" % hyd)
    tables = {}
    for k in set(REQUIRED) | set(OWN) | {"fluffy", "Vd_rhoa_scaling_ref"}:
        v = f.get(k)
        if isinstance(v, dict):
            tables[k] = v
        elif k in f and v is not None:
            o.unk("%s: %s is %r" % (m, k, v))

    # an entry for each declared class
    for k in REQUIRED:
        if k in f and k not in tables and f[k] is not None:
            continue
        t = tables.get(k, {})
        if not t and m == "TestModel" and k.endswith("_re_fields"):
            continue
        for h in hyd:
            o.n("obligations")
            if h not in t:
                bad("%s:missing" % k, "%s has no entry for hydrometeor class %r" % (k, h))
            elif t[h] is None and k not in ("vel_param_a", "vel_param_b"):
                bad("%s:missing" % k, "the %s entry of hydrometeor class %r is None" % (k, h))
    if f.get("rad_scheme_family") in ("CESM", "P3"):
        for k in ("mu_field", "lambda_field"):
            if k in tables:
                for h in hyd:
                    o.n("obligations")
                    if h not in tables[k]:
                        bad("%s:missing" % k, "%s has no entry for hydrometeor class %r" % (k, h))
    if tables.get("q_names"):
        for h in hyd:
            o.n("obligations")
            if h not in tables["q_names"]:
                bad("q_names:missing", "q_names has no entry for hydrometeor class %r" % h)
    # density decides liquid or ice
    ice = f.get("ice_hyd_types")
    kind = {}
    for h in hyd:
        r = tables.get("Rho_hyd", {}).get(h)
        if r == "variable":
            kind[h] = "ice"
            o.n("obligations")
            if not isinstance(tables.get("variable_density", {}).get(h), str):
                bad("variable_density:missing", "class %r has a variable density and no density field" % h)
            continue
        d = asnum(r) if r is not None else None
        if d is None:
            continue
        num, u = d
        o.n("obligations")
        if u and u != {"kg": 1, "meter": -3}:
            bad("Rho_hyd:units", "the density of class %r is not given in kg m-3" % h)
            continue
        if h in ("cl", "pl") and num != 1000:
            bad("Rho_hyd:liquid", "liquid class %r has a density of %g kg m-3" % (h, num))
        if h not in ("cl", "pl") and not 0 < num <= 917:
            bad("Rho_hyd:ice", "ice class %r has a density of %g kg m-3" % (h, num))
        kind[h] = "liquid" if h in ("cl", "pl") else "ice"
    for h in hyd:
        k = kind.get(h) or ("liquid" if h in ("cl", "pl") else "ice")
        o.n("obligations", 2)
        if isinstance(ice, (list, tuple)):
            if k == "ice" and h not in ice:
                bad("ice_hyd_types:missing", "ice class %r is not in ice_hyd_types %s" % (h, list(ice)))
            if k == "liquid" and h in ice:
                bad("ice_hyd_types:liquid", "liquid class %r is in ice_hyd_types %s" % (h, list(ice)))
        fl = tables.get("fluffy")
        if fl is not None:
            if k == "ice" and h not in fl:
                bad("fluffy:missing", "ice class %r has no fluffiness factor" % h)
            if k == "ice" and h in fl:
                d = asnum(fl[h])
                if d and not 0 <= d[0] <= 1:
                    bad("fluffy:range", "the fluffiness factor of class %r is %g" % (h, d[0]))
    # values with a fixed sign, fall speed law given in full
    for k in ("lidar_ratio", "LDR_per_hyd", "vel_param_a", "vel_param_b", "Vd_rhoa_scaling_ref"):
        for h in hyd:
            d = asnum(tables.get(k, {}).get(h))
            if d:
                o.n("obligations")
                if d[0] <= 0:
                    bad("%s:sign" % k, "the %s entry of class %r is %g" % (k, h, d[0]))
    va, vb = tables.get("vel_param_a", {}), tables.get("vel_param_b", {})
    for h in hyd:
        if h in va and h in vb:
            o.n("obligations")
            if (va[h] is None) != (vb[h] is None):
                bad("vel_param:half", "class %r has only one of vel_param_a and vel_param_b" % h)
            a, b = asnum(va[h]), asnum(vb[h])
            if a and b and a[1].get("second") == -1 and isinstance(a[1].get("meter"), tm.T):
                e = a[1]["meter"]
                want = tm.add(mk("c", 1), tm.mul(mk("c", -1), mk("c", b[0])))
                got = tm.transform(e, lambda t: mk("c", dims(t.args[0])[0]) if t.op == "mag" and t.args and
                                   dims(t.args[0]) and not dims(t.args[0])[1] else None)
                if got.op == "c" and want.op == "c" and abs(got.args[0] - want.args[0]) > 1e-9:
                    bad("vel_param:units", "the units of vel_param_a of class %r belong to an exponent of %g, "
                        "not its vel_param_b of %g" % (h, 1 - got.args[0], b[0]))
    # which dataset field an entry selects
    conv_tables = [tables.get(k) for k in SECTION if SECTION[k] == "conv"]

    def filler(t, x):
        if ds is not None and x in terms and not any(l.op == "in" for l in tm.vdeps(terms[x])):
            return True
        n = [t[h] for h in hyd if h in t].count(x)
        return n > 1 and n * 2 > len(hyd) if t in conv_tables else n > 1 and n == len(hyd)

    use = {}
    for k in QUANTITY:
        t = tables.get(k)
        if t is None:
            v = f.get(k)
            if isinstance(v, dict):
                t = v
            elif isinstance(v, str):
                use.setdefault(v, {}).setdefault(QUANTITY[k], k)
                continue
            else:
                continue
        for h in hyd:
            x = t.get(h)
            if isinstance(x, str) and x and not filler(t, x):
                use.setdefault(x, {}).setdefault(QUANTITY[k], "%s[%r]" % (k, h))
    for x, qs in sorted(use.items()):
        o.n("obligations")
        if len(qs) > 1:
            qs = sorted(qs.items(), key=lambda p: p[1])
            bad("quantity:%s" % x, "field %r is used as %s (%s) and as %s (%s)" % (
                x, qs[0][0], qs[0][1], qs[1][0], qs[1][1]))
    for k in OWN:
        t = tables.get(k, {})
        seen = {}
        for h in hyd:
            x = t.get(h)
            if not isinstance(x, str) or filler(t, x):
                continue
            o.n("obligations")
            if x in seen and not (test and k.endswith("_re_fields")):
                bad("%s:shared" % k, "%s of class %r selects %r, the field of class %r" % (k, h, x, seen[x]))
            seen[x] = h
    for k in QUANTITY:
        t = tables.get(k)
        if not t or k.endswith("_for_rad"):
            continue
        for h in hyd:
            x = t.get(h)
            if not isinstance(x, str) or (test and k.endswith("_re_fields")):
                continue
            o.n("obligations")
            other = names_class(x, hyd)
            if other and h not in other:
                bad("%s:other-class" % k, "%s of class %r selects %r, a field of class %r" % (
                    k, h, x, sorted(other)[0]))
    # the convective and stratiform fields of a class differ when both are processed
    if f.get("process_conv") is True and not test:
        for a, b in (("q_names_stratiform", "q_names_convective"), ("strat_re_fields", "conv_re_fields"),
                     ("strat_frac_names", "conv_frac_names"),
                     ("strat_frac_names_for_rad", "conv_frac_names_for_rad")):
            for h in hyd:
                x, y = tables.get(a, {}).get(h), tables.get(b, {}).get(h)
                if isinstance(x, str) and x == y:
                    o.n("obligations")
                    bad("%s:conv-strat" % b, "%s and %s of class %r both select %r" % (a, b, h, x))
    # a class the model declares has a stratiform mixing ratio
    for h in hyd:
        x = tables.get("q_names_stratiform", {}).get(h)
        if isinstance(x, str) and x in terms and not test:
            o.n("obligations")
            if not any(l.op == "in" for l in tm.vdeps(terms[x])) and not has_unknown(terms[x]):
                bad("q_names_stratiform:placeholder", "the stratiform mixing ratio of class %r is the constant field "
                    "%r" % (h, x))


def main(tier):
    return base.main("C10", tasks(tier), fn,
              "Every model constructor is interpreted in each of its option combinations and the resulting class "
              "tables are read: each table the calculations index by hydrometeor class has an entry for each declared "
              "class; ice-only tables cover each ice class and no liquid one, decided from the particle density; the "
              "named dataset fields differ between classes and between quantities unless they are constant fillers, "
              "and none carries another class's name.",
              ["A class is liquid if its name is 'cl' or 'pl'.",
               "Test models share effective radius and convective/stratiform fields between classes on purpose.",
               "Constructors that raise on the abstract input file are undecided here (C19 reports them)."],
              tier=tier)
