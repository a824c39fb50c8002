"""C08: simulation leaves model input, look-up tables and configuration unmodified."""
from . import base
from .scen import *  # noqa
from engine.values import *  # noqa

ALLOWED = {"num_subcolumns"}     # set by the documented N_sub argument
CACHES = {"interpobj"}           # interpolators are built on first use: entries may be added, not changed
VARIANTS = {
    "rad": dict(LOGICS["rad"]), "micro": dict(LOGICS["micro"]), "empirical": dict(LOGICS["empirical"]),
    "classify": dict(do_classify=True), "classify-zeros": dict(do_classify=True, convert_zeros_to_nan=True),
    "mie": dict(use_rad_logic=False, mie_for_ice=True), "nomie": dict(use_rad_logic=False, mie_for_ice=False),
    "radmie": dict(use_rad_logic=True, mie_for_ice=True), "serial": dict(parallel=False),
    "finalize": dict(finalize_fields=True), "unstack": dict(unstack_dims=True), "subcol": dict(subcol_gen_only=True),
    "nsub1": dict(nsub=1),
}


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "NEXRAD", "HSRL", "RL", "CALIOP"):
            for v in VARIANTS:
                if tier == "quick" and m not in CORE_MODELS and v not in ("rad", "micro", "classify"):
                    continue
                out.append((m, i, v))
    for m in CORE_MODELS:
        out.append((m, "HSRL", "ratio"))
        out.append((m, "HSRL", "cosp"))
    return out


def snap(s, v, path, out, depth=0, stop=()):
    """path -> term of everything reachable from a configuration object"""
    if depth > 6:
        return
    if isinstance(v, Ref):
        n = s.node(v.addr)
        if isinstance(n, Obj):
            for k, x in n.fields.items():
                if k != "ds":
                    snap(s, x, path + (k,), out, depth + 1)
            return
        if isinstance(n, Dct):
            out[path + ("<keys>",)] = tuple(map(str, n.items))
            for k, x in n.items.items():
                snap(s, x, path + (k,), out, depth + 1)
            return
        if isinstance(n, Lst):
            out[path] = s.lst_term(n)
            return
        if isinstance(n, DS):
            for k, a in n.vars.items():
                d = s.node(a)
                if isinstance(d, DA):
                    out[path + (k,)] = s.view(d.buf, d.path)
            return
        if isinstance(n, DA):
            out[path] = s.view(n.buf, n.path)
            return
        return
    if isinstance(v, (FuncV, BoundV, ClassV)):
        return
    try:
        out[path] = s.term(v)
    except Exception:
        pass


def attrs(s, m):
    """input field -> its attributes"""
    out = {}
    for k, a in s.dsnode(m).vars.items():
        if k in s.inputs:
            d = s.node(a)
            n = s.node(d.attrs) if d.attrs is not None else None
            if isinstance(n, Dct):
                out[k] = {x: s.term(y) for x, y in n.items.items()}
    return out


def fn(s, task, o):
    m, i, v = task
    cfg = "%s, %s, %s" % task
    kw = dict(VARIANTS.get(v, {}))
    c = setup(s, m, i, nsub=kw.pop("nsub", None))
    before = {}
    snap(s, c.m, ("model",), before)
    snap(s, c.i, ("instrument",), before)
    tin = {k: t for k, t in s.terms_of(c.m).items() if k in s.inputs}
    dims = {k: s.node(a).dims for k, a in s.dsnode(c.m).vars.items() if k in s.inputs}
    ain = attrs(s, c.m)
    if v in ("ratio", "cosp"):
        simulate(c, use_rad_logic=False)
        if v == "ratio":
            call(c, "emc2.simulator.classification", "lidar_classify_phase", [c.i, c.m], {})
            for kk in (dict(), dict(mass_pr=True), dict(mass_pr=True, mpr_subcolmod=True)):
                call(c, "emc2.simulator.classification", "calculate_phase_ratio",
                     [c.m, K("phase_mask_HSRL_all_hyd"), K(1)], kk)
        else:
            call(c, "emc2.simulator.classification", "lidar_emulate_cosp_phase", [c.i, c.m], {})
    else:
        simulate(c, **kw)
    after = {}
    snap(s, c.m, ("model",), after)
    snap(s, c.i, ("instrument",), after)
    o.n("obligations", len(before) + len(tin) * 2)
    for p, t in before.items():
        if p[1] in ALLOWED:
            continue
        if p[1] in CACHES and p[-1] == "<keys>":
            if set(t) <= set(after.get(p, ())):
                continue
        u = after.get(p)
        if u is t or u == t:
            continue
        nm = ".".join(map(str, p))
        o.find("config:%s" % generic(nm, c), "%s: %s changes during the simulation: %s" % (
            cfg, nm, "removed" if u is None else str(tm.diff(t, u))[:200] if isinstance(t, tm.T) else
            sorted(set(u) ^ set(t))), None)
    tout = s.terms_of(c.m)
    for k, t in tin.items():
        u = tout.get(k)
        if u is None:
            if v in ("finalize", "unstack"):
                continue
            o.find("input-removed:%s" % generic(k, c), "%s: input field %s is removed" % (cfg, k), None)
        elif u is not t and v not in ("finalize", "unstack"):
            ev = [e for e in c.events if e.kind in ("mutate", "replace") and str(e.data.get("owner")) == "in:" + k]
            o.find("input:%s" % generic(k, c), "%s: input field %s is changed to %s" % (cfg, k, tm.show(u, 3)[:200]),
                   ev[-1] if ev else writes(c).get(k))
        elif u is t and v not in ("finalize", "unstack"):
            a = s.dsnode(c.m).vars.get(k)
            if a is not None and s.node(a).dims != dims[k] and dims[k] is not None and s.node(a).dims is not None:
                o.find("dims:%s" % generic(k, c), "%s: dimensions of input field %s change from %s to %s" % (
                    cfg, k, dims[k], s.node(a).dims), None)
    for k, at in attrs(s, c.m).items():
        b = ain.get(k)
        if b is not None and k in tout and tout[k] is tin.get(k):
            for x, t in b.items():
                if at.get(x) is not t:
                    o.find("attrs:%s" % generic(k, c), "%s: attribute %s of input field %s changes" % (cfg, x, k), None)
            new = set(at) - set(b)
            if new:
                o.find("attrs:%s" % generic(k, c), "%s: attributes %s are set on input field %s" % (cfg, sorted(new), k), None)
    # writes into buffers of the input or the tables, even when the field is put back later
    for e in c.events:
        if e.kind == "mutate" and str(e.data.get("owner", "")).startswith(("lut:", "in:")):
            o.find("write:%s:%s" % (e.func, generic(str(e.data["owner"]), c)),
                   "%s: writes into %s" % (cfg, e.data["owner"]), e)
    if len(o.samples) < 1:
        o.samples.append(dict(config=cfg, configuration_entries=len(before), input_fields=len(tin)))


def generic(k, c):
    import re
    for h in c.all_classes:
        k = re.sub(r"(\[|_)%s(\]|_|$)" % h, r"\1CLASS\2", k)
    return k


def main(tier):
    base.TIER = tier
    return base.main("C08", tasks(tier), fn, (
        "Effect analysis on the abstract heap: every array of the host model and every look-up table is a buffer with an "
        "owner; views share the buffer. After each interpreted configuration, the value-flow term of every input field, "
        "its attributes, every table and every entry of the model and instrument definition must be the one before; a "
        "store into an owned buffer anywhere on the way is reported as well."),
        assumptions=("num_subcolumns is set by the documented argument", "interpolator caches may gain entries",
                     "finalize_fields / unstack_dims change the layout of fields as documented"), tier=tier)
