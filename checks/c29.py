"""C29: physical units are stripped or consistent: results are plain numbers in the unit they are labelled with."""
from . import base
from .scen import *  # noqa
from engine import terms as tm
from engine.dims import Dims, Unknown, text
from engine.drive import PARAM_DICTS, raw_instrument, raw_model
from engine.values import *  # noqa


def tasks(tier):
    insts = ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "WACR", "HSRL", "RL", "CALIOP", "CEIL")
    out = [(m, i, lg, mie) for m in SIM_MODELS for i in insts for lg in LOGICS for mie in (
        (None,) if lg == "empirical" else (None, True, False))]
    out += [(m, "HSRL", w, None) for m in SIM_MODELS for w in ("ratio", "cosp")]
    return out


def declared(s, m, i):
    """parameter -> the expression it is declared with"""
    out = {}
    x = raw_model(s, m)
    for d in PARAM_DICTS:
        v = s.field(x, d)
        if isinstance(v, Ref) and isinstance(s.node(v.addr), Dct):
            for k, y in s.node(v.addr).items.items():
                if not (isinstance(y, K) and not isinstance(y.val, (int, float))) and not isinstance(y, (FuncV, BoundV)):
                    out["%s[%s]" % (d, k)] = s.term(y)
    y = raw_instrument(s, i)
    for f, v in s.node(y.addr).fields.items():
        if isinstance(v, Num) or isinstance(v, K) and isinstance(v.val, (int, float)):
            out["inst." + f] = s.term(v)
    return out


def fn(s, task, o):
    m, i, lg, mie = task
    par = declared(s, m, i)
    cfg = "%s with %s, %s%s" % (m, i, lg, "" if mie is None else ", mie_for_ice=%s" % mie)
    if lg in LOGICS:
        kw = {} if mie is None else dict(mie_for_ice=mie)
        c, sub, out = staged(s, m, i, lg, **kw)
    else:
        c, sub, out = staged(s, m, i, "rad")
        c.events = []
        cut(c)
        if lg == "ratio":
            call(c, LM, "calc_LDR_and_ext", [c.m], {})
        else:
            call(c, CL, "lidar_emulate_cosp_phase", [c.i, c.m], {})
        out = {k: t for k, t in outputs(c).items() if t is not mk("in", k)}
    w = writes(c)
    d = Dims(par)
    for k in sorted(out):
        d.sweep(out[k])
        o.n("obligations")
        try:
            r = d(out[k])
        except Unknown:
            r = ()
        if r:
            o.find("carried:%s/%s" % (k, lg), "%s: %s is stored as a quantity in %s: adding it to plain numbers raises "
                   "DimensionalityError" % (cfg, k, text(r)), w.get(k))
    seen = set()
    for k in sorted(out):
        for x in tm.nodes([out[k]]):
            if x in d.clash and x not in seen:
                seen.add(x)
                o.find("mixed:%s/%s" % (k, lg), "%s: %s adds numbers in %s" % (
                    cfg, k, " and ".join(text(y) for y in d.clash[x])), w.get(k))
    o.n("parameters", len(par))


def main(tier):
    return base.main("C29", tasks(tier), fn, "The dimension every parameter is declared with (kg m-3, dimensionless, ...) is "
              "propagated through the value-flow term of every stored field (products, powers, sums, magnitude and unit "
              "conversions). A stored field must not certainly carry a unit, and no sum may add two dimensions or a "
              "unit-carrying number to a plain one.",
              ["an operation whose effect on units is not modelled ends the inference (no report)",
               "pint refuses to add a quantity in a unit to plain numbers unless they are all zero"], tier=tier)


if __name__ == "__main__":
    import sys
    sys.exit(main(sys.argv[1] if len(sys.argv) > 1 else "quick"))
