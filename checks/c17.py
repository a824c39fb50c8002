"""C17: every column and time step is simulated from its own data only."""
from . import base
from .scen import *  # noqa
from .c14 import gen
from engine.dep import Dep, Unread

AXES = {"S": "subcolumn", "T": "time step", "H": "level"}


def tasks(tier):
    ms = CORE_MODELS if tier == "quick" else SIM_MODELS
    out = []
    for m in ms:
        for lg in LOGICS:
            for i in ("KAZR", "HSRL"):
                out.append((m, i, lg, {}))
                if tier != "quick":
                    out.append((m, i, lg, {"parallel": False}))
                    out.append((m, i, lg, {"OD_from_sfc": False}))
    out += [(m, "KAZR", "micro", {"parallel": False}) for m in ("ModelE", "E3SMv3")]
    out += [(m, "HSRL", "micro", {"parallel": False, "OD_from_sfc": False}) for m in ("ModelE", "E3SMv3")]
    return out


def letters(s, c):
    n = s.dsnode(c.m)
    td, hd = s.field(c.m, "time_dim").val, s.field(c.m, "height_dim").val
    L = {"subcolumn": "S", td: "T", hd: "H"}
    known = {}
    for k in n.vars:
        d = s.node(n.vars[k]).dims
        if d is not None and all(x in L for x in d):
            known[k] = "".join(L[x] for x in d)
    dims = {"subcolumn": 2, td: 3, hd: 4}

    def of(nm):
        if nm in known:
            return known[nm]
        if not isinstance(nm, str):
            return None
        return "STH" if "subcol" in nm or nm.startswith("sub_col") else "TH"
    return of, dims


def fn(s, task, o):
    m, i, lg, kw = task
    kw = dict(kw)
    od = kw.pop("OD_from_sfc", None)
    c, sub, sim = staged(s, m, i, lg, do_classify=True, setup_kw={"od": od} if od is not None else None,
                         **({k: K(v) for k, v in kw.items()}))
    cfg = "%s, %s, %s" % (m, i, lg)
    of, dims = letters(s, c)
    ev = dict(c.sub_writes)
    ev.update(writes(c))
    for stage, fields in (("subcolumn generation", sub), ("moments", sim)):
        if stage[0] == "s" and i == "HSRL":
            continue
        for k, t in sorted(fields.items()):
            q = Dep(of, dims)
            o.n("fields")
            try:
                r = q.outside(t, None)
            except Unread as z:
                o.unk("%s: %s: %s" % (cfg, k, z))
                continue
            except RecursionError:
                o.unk("%s: %s: too deep" % (cfg, k))
                continue
            o.n("obligations", 3)
            for (leaf, ax, sure), (j, own) in sorted(r.items()):
                if stage[0] == "s" and ax != "T":
                    continue
                if ax == "H" and not per_class(c, leaf):
                    continue
                if not sure:
                    o.unk("%s: %s may read %s at another %s" % (cfg, k, leaf, AXES[ax]))
                    continue
                o.find("%s:%s" % (ax, gen(c, k)), "%s: %s at %s %d is computed from %s at %s %d" % (
                    cfg, k, AXES[ax], own, leaf, AXES[ax], j), ev.get(k) or ("emc2/simulator/subcolumn.py" if
                    stage[0] == "s" else "emc2/simulator/main.py", 0, k))


def per_class(c, leaf):
    """hydrometeor data, as opposed to the pressures and temperatures that integrals over layers average"""
    return "subcol" in leaf or leaf.startswith("sub_col") or leaf.endswith("]")


def main(tier):
    return base.main(
        "C17", tasks(tier), fn,
        "Both stages are interpreted on symbolic fields and every element of every field they write is evaluated over "
        "a grid of 2 subcolumns, 3 time steps and 4 levels with sets of input elements in place of numbers. An element "
        "may take values only from its own time step; in the moments stage only from its own subcolumn, and hydrometeor "
        "data at other levels only through vertical sums.",
        ["a branch on a whole-array test is control, not data", "reads through an index that depends on data count only "
         "when every possible position violates the rule"])
