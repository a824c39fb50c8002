"""C06: parallel, chunked and serial processing give the same fields."""
from . import base
from .scen import *  # noqa
from .c05 import gen

MODES = (("serial", dict(parallel=False)),
         ("any chunk size", dict(parallel=True, chunk="?")),
         ("chunk 1", dict(parallel=True, chunk=1)),
         ("chunk 7", dict(parallel=True, chunk=7)))


def tasks(tier):
    out = []
    ms = CORE_MODELS if tier == "quick" else SIM_MODELS
    for m in ms:
        for i in ("KAZR", "HSRL") if tier == "quick" else ("KAZR", "HSRL", "NEXRAD", "CALIOP"):
            for lg in ("micro", "rad") if tier == "quick" else LOGICS:
                out.append((m, i, lg))
    return out


def one(s, m, i, lg, kw):
    c = setup(s, m, i)
    if lg == "rad":
        add_re(c.s, c.m)
    k = dict(LOGICS[lg])
    k.update(kw)
    if k.get("chunk") == "?":
        k["chunk"] = opt("chunk")
    simulate(c, **k)
    return c


def fn(s, task, o):
    m, i, lg = task
    cfg = "%s, %s, %s logic" % task
    r0 = one(s, m, i, lg, dict(parallel=True))
    if isinstance(r0, str):
        o.unk("%s: %s" % (cfg, r0))
        return
    ref = {k: unshape(t) for k, t in outputs(r0).items()}
    kd = kind_of(i)
    for nm, kw in MODES:
        try:
            c = one(s, m, i, lg, kw)
        except AbsRaise as e:
            o.find("fails:%s:%s" % (nm, e.args[0] if e.args else "exception"),
                   "%s stops in mode %s only: %s" % (cfg, nm, e), None)
            continue
        o.n("configurations")
        w = writes(c)
        tl = [e for e in c.events if e.kind == "tiling"]
        for e in tl:
            o.find("tiling:%s" % e.func, "%s: the index ranges of the chunk loop do not cover every time step once and "
                   "in order: %s" % (cfg, e.data.get("example")), e)
        out = outputs(c)
        for k, t in ref.items():
            o.n("obligations")
            u = out.get(k)
            if u is None:
                o.find("missing:%s:%s:%s" % (kd, nm, gen(k, c)), "%s: %s is not produced in mode %s" % (cfg, k, nm), w.get(k))
                continue
            u = unshape(u)
            if u is t:
                continue
            if has_unknown(u) or has_unknown(t) or tl:
                o.unk("%s: %s (%s)" % (cfg, k, nm))
                continue
            if nm != "serial" and tm.contains(u, lambda x: x.op == "loop" and x.args[0].op == "while" and not
                                              tm.contains(t, lambda y: y is x)):
                # a chunk loop whose index recurrence is of no decided form
                o.unk("%s: %s (%s)" % (cfg, k, nm))
                continue
            o.find("differs:%s:%s:%s" % (kd, nm, gen(k, c)), "%s: %s differs between parallel processing and mode '%s': %s"
                   % (cfg, k, nm, str(tm.diff(t, u))[:250]), w.get(k))
    if len(o.samples) < 1:
        o.samples.append(dict(config=cfg, fields_compared=len(ref)))


def main(tier):
    base.TIER = tier
    return base.main("C06", tasks(tier), fn, (
        "Each configuration is interpreted with whole-length parallel processing, serial processing, a chunk size that is "
        "an unknown number, and constant chunk sizes. Every output field must have the identical value-flow term. A chunk "
        "loop (a loop appending f(i) for the i of a range computed from its counter) is replaced by one loop over all "
        "indices only when its index recurrence, extracted from the source, tiles 0..N once and in order; a recurrence that "
        "skips, repeats, reorders or never ends is reported with the chunk size and length for which it does."),
        assumptions=("library transfer functions of the engine", "dask bag.map keeps order",
                     "random draws are equal if they are drawn by the same call"), tier=tier)
