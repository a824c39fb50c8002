"""Unit conversions in terms: a converted field expressed by the field in SI."""
import re

from . import terms as tm

_PRE = {"h": 100., "hecto": 100., "k": 1e3, "kilo": 1e3, "m": 1e-3, "milli": 1e-3, "c": 1e-2, "centi": 1e-2,
        "u": 1e-6, "micro": 1e-6, "µ": 1e-6, "n": 1e-9, "nano": 1e-9, "G": 1e9, "giga": 1e9, "M": 1e6, "mega": 1e6}
_BASE = {"pascal": ("Pa", 1.), "Pa": ("Pa", 1.), "bar": ("Pa", 1e5), "atmosphere": ("Pa", 101325.), "atm": ("Pa", 101325.),
         "kelvin": ("K", 1.), "K": ("K", 1.), "degK": ("K", 1.), "meter": ("m", 1.), "metre": ("m", 1.),
         "meters": ("m", 1.), "m": ("m", 1.), "gram": ("kg", 1e-3), "g": ("kg", 1e-3), "hertz": ("Hz", 1.),
         "Hz": ("Hz", 1.), "second": ("s", 1.), "s": ("s", 1.), "micron": ("m", 1e-6), "microns": ("m", 1e-6)}
_C = {"celsius", "degC", "degree_Celsius", "degrees_Celsius", "degreeC", "°C"}


def unit(name):
    """(dimension, factor, offset): SI = factor*x + offset; None if unknown"""
    n = str(name).strip()
    if n in _C:
        return "K", 1., 273.15
    if n in _BASE:
        d, f = _BASE[n]
        return d, f, 0.
    for p in sorted(_PRE, key=len, reverse=True):
        r = n[len(p):]
        if n.startswith(p) and r in _BASE and (len(p) == 1) == (len(r.rstrip("s")) <= 2):
            d, f = _BASE[r]
            return d, f * _PRE[p], 0.
    return None


def parts(t):
    """(numeric factor, leaf, declared unit term, target unit name) of mag(to(Quantity(leaf, unit), target))"""
    if t.op != "mag" or t.args[0].op != "to":
        return None
    q, tgt = t.args[0].args[0], t.args[0].args[1]
    tgt = tgt.args[0] if tgt.op == "c" else None
    if tgt is None:
        return None
    if q.op == "m:Quantity" and len(q.args) == 3:
        return q.args[1], q.args[2], tgt
    if q.op == "mul":
        un = [x for x in q.args if x.op == "unit"]
        if len(un) == 1:
            return tm.mul(*[x for x in q.args if x is not un[0]]), un[0].args[0], tgt
        un = [x for x in q.args if x.op in ("ext", "extm") or "UnitRegistry" in str(x.args[:1])]
        if len(un) == 1:
            rest = [x for x in q.args if x is not un[0]]
            u = un[0]
            nm = u.args[-1]
            nm = nm if isinstance(nm, tm.T) else tm.c(nm)
            return tm.mul(*rest), nm, tgt
    return None


SWAP = {}      # (field, target unit) -> another target unit, to ask what the term would be with that conversion


def si(t, only=None):
    """t with every converted field replaced by the field itself, taken in SI"""
    def f(x):
        if x.op != "mag":
            return None
        p = parts(x)
        if p is None:
            return None
        body, decl, tgt = p
        if SWAP and body.op in ("in", "stale"):
            tgt = SWAP.get((body.args[0], tgt), tgt)
        u = unit(tgt)
        if u is None:
            return None
        if decl.op == "c" and tm.isnum(body):       # a constant with its unit
            d = unit(decl.args[0])
            if d is None or d[0] != u[0]:
                return None
            return tm.mul(tm.add(tm.mul(body, tm.c(d[1])), tm.c(d[2] - u[2])), tm.c(1. / u[1]))
        if decl.op == "c" and body.op not in ("in", "stale"):       # a derived field with its unit
            d = unit(decl.args[0])
            if d is None or d[0] != u[0]:
                return None
            if d == u:
                return body
            b = body if d[1] == 1. else tm.mul(body, tm.c(d[1]))
            b = tm.add(b, tm.c(d[2] - u[2])) if d[2] != u[2] else b
            return b if u[1] == 1. else tm.mul(b, tm.c(1. / u[1]))
        if body.op not in ("in", "stale"):
            return None
        return tm.mul(tm.add(body, tm.c(-u[2])), tm.c(1. / u[1])) if u[2] else tm.mul(body, tm.c(1. / u[1]))
    return tm.transform(t, f)


def conversions(t):
    """mag nodes of a term: [(node, leaf, declared, target)]"""
    out = []
    for x in tm.nodes([t]):
        if x.op == "mag":
            p = parts(x)
            if p is not None:
                out.append((x,) + p)
    return out
