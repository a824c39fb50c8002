"""C16: stacking the horizontal dimensions for processing is undone exactly."""
from . import base
from .scen import *  # noqa
from engine.elem import Misfit, Unread, indexes
from engine.layout import Layout
from engine.values import *  # noqa

MOD = "emc2.core.model"
ONE = "model of one column"
T4 = ("time", "lev", "lat", "lon")
T3 = ("time", "lev", "lat")
# sizes of the dimensions the file has
GRIDS = {
    "region": dict(time=4, lev=5, lat=2, lon=3),
    "square": dict(time=2, lev=2, lat=2, lon=2),
    "single time": dict(time=1, lev=3, lat=2, lon=3),
    "single time and latitude": dict(time=1, lev=3, lat=1, lon=4),
    "no time": dict(lev=3, lat=2, lon=4),
    "one latitude": dict(time=3, lev=2, lat=1, lon=4),
    "one longitude": dict(time=3, lev=2, lat=4, lon=1),
    "columns in lat": dict(time=3, lev=2, lat=4),
    "column": dict(time=3, lev=2, lat=1, lon=1),
    "column in lat": dict(time=3, lev=2, lat=1),
    "profile": dict(time=3, lev=2),
}


def tasks(tier):
    ords = (0, 1) if tier == "quick" else range(5)
    out = []
    for g in GRIDS:
        for k in ords:
            for order in (True, False):
                for nsub in (2, 1):
                    out.append((g, k, order, nsub))
    for i in ("KAZR", "HSRL"):
        for un in (True, False, None):
            for st in (True, False):
                out.append(("run", i, un, st))
    return out


def perm(ds, k):
    ds = list(ds)
    return tuple(ds if k == 0 else ds[k % len(ds):] + ds[:k % len(ds)] if k < 3 else reversed(ds) if k == 3 else
                 ds[::2] + ds[1::2])


def leaf(s, name, sh):
    t = tm.mk("in", name)
    s.leaf_shapes[t] = tuple(tm.c(x) for x in sh)
    return t


def put(s, dsr, name, dims, leaves):
    """a variable of the dataset whose elements are all different"""
    L = s.layout
    sh = tuple(L.sizes[d] for d in dims)
    L.leaves[name] = sh
    n = s.node(dsr.addr)
    at = s.new(Dct({"units": K("units of " + name)}))
    a = s.new(DA(s.new(Buf(leaf(s, name, sh), None)), (), at, name, tuple(dims)))
    s.put(dsr.addr, n.but(vars=dict(n.vars, **{name: a})))
    leaves[name] = tuple(dims)


def site(s, fn):
    try:
        f = s.getattr(s.get(MOD, "Model"), fn)
        return ("emc2/core/model.py", f.node.lineno, fn)
    except Exception:
        return ("emc2/core/model.py", 0, fn)


STACK, UNSTACK = "check_and_stack_time_lat_lon", "unstack_time_lat_lon"


def pipeline(s, o, inst, un, st):
    """make_simulated_data unstacks once, when asked, and after everything is in place"""
    cell = setup(s, "CESM2", inst)
    s.set_field(cell.m, "stacked_time_dim", K("time_unstacked") if st else K(None))
    seen = []

    def h(s, f, a, kw, node):
        seen.append((len(s.events), a[1:], kw))
        return K(None)
    q = "emc2.core.model.Model." + UNSTACK
    s.hooks[q] = h
    try:
        kw = {} if un is None else {"unstack_dims": K(un)}
        r = run(s, MAIN[0], MAIN[1], [cell.m, cell.i, cell.nsub], kw)
    finally:
        s.hooks.pop(q)
    cfg = "make_simulated_data, %s, unstack_dims %s, %s columns" % (inst, un, "stacked" if st else "single")
    at = ("emc2/simulator/main.py", has_line(s), MAIN[1])
    if r.raised is not None:
        o.unk("%s raised %s" % (cfg, r.raised[0]))
        return
    o.n("obligations")
    want = un is not False and st if un is not None else None
    if want is False and seen:
        o.find("run:unasked", "%s: the dimensions are unstacked" % cfg, at)
    elif want and len(seen) != 1:
        o.find("run:times", "%s: the dimensions are unstacked %d times" % (cfg, len(seen)), at)
    for k, a, b in seen:
        late = [e for e in r.events[k:] if e.kind in ("dsset", "mutate") and e.data.get("name") not in (None,)]
        if late:
            o.find("run:late", "%s: %s is written after the dimensions were unstacked" % (
                cfg, late[0].data["name"]), late[0])


def has_line(s):
    try:
        return s.get(*MAIN).node.lineno
    except Exception:
        return 0


def fn(s, task, o):
    if task[0] == "run":
        return pipeline(s, o, *task[1:])
    grid, k, order, nsub = task
    sizes = dict(GRIDS[grid])
    cfg = "%s (%s)%s" % (grid, ", ".join("%s=%d" % x for x in sizes.items()), "" if order else ", order_dim=False")
    fresh(s)
    m = raw_model(s, "E3SMv1")
    if s.pyval(s.getattr(m, "time_dim")) != "time" or s.pyval(s.getattr(m, "height_dim")) != "lev":
        o.unk("dimension names")
        return
    s.layout = Layout(s, dict(sizes, subcolumn=nsub), {})
    stage = [0]
    try:
        roundtrip(s, o, m, grid, sizes, k, order, nsub, cfg, stage)
    except Misfit as z:
        at = UNSTACK if s.getattr(m, "stacked_time_dim") == K(None) or stage[0] else STACK
        o.find("%s:misfit" % at.split("_")[0], "%s: %s does not fit its own shapes: %s" % (cfg, at, z), site(s, at))
    except Unread as z:
        o.unk("%s: %s" % (cfg, z))
    finally:
        s.layout = None


def method(s, m, name, kw):
    f = s.getattr(m, name)
    return s.call(f, [], {a: K(b) for a, b in kw.items()})


def roundtrip(s, o, m, grid, sizes, k, order, nsub, cfg, stage):
    from engine.interp import AbsRaise
    L = s.layout
    orig = {}
    dsr = Ref(s.new(DS({}, s.new(Dct({})), None, None)))
    for d in sizes:
        put(s, dsr, d, (d,), orig)
    full = [d for d in T4 if d in sizes]
    put(s, dsr, "full", perm(full, k), orig)
    put(s, dsr, "flat", perm([d for d in full if d != "lev"], k), orig)
    put(s, dsr, "series", [d for d in ("time",) if d in sizes], orig)
    put(s, dsr, "levels", ("lev",), orig)
    L.sizes["ilev"], L.sizes["bin"] = 6, 3
    put(s, dsr, "interfaces", [d for d in ("time", "ilev", "lat", "lon") if d in sizes or d == "ilev"], orig)
    put(s, dsr, "scalar", (), orig)
    if "lon" in sizes:
        put(s, dsr, "map", ("lon", "lat"), orig)
    s.setattr(m, "ds", dsr)
    s.setattr(m, "time_dim", K("time"))
    s.setattr(m, "stacked_time_dim", K(None))
    s.setattr(m, "num_subcolumns", K(nsub))
    s.setattr(m, "lat_dim", K("lat"))
    s.setattr(m, "lon_dim", K("lon"))
    try:
        method(s, m, STACK, {"order_dim": order})
    except AbsRaise as x:
        o.find("stack:%s" % x.exc, "%s: %s raises %s: %s" % (cfg, STACK, x.exc, x.msg), site(s, STACK))
        return
    regional = any(sizes.get(d, 1) > 1 for d in ("lat", "lon"))
    tdim = s.pyval(s.getattr(m, "time_dim"))
    n = s.dsnode(m)
    # where each place of the working grid comes from
    home = {}
    work = [tdim, "lev", "ilev"]
    for d in ("time", "lat", "lon"):
        if d in sizes or d == "time":
            home[d] = places(s, n, d, tdim, sizes)
    for v, dims in orig.items():
        if v not in n.vars:
            if v in home:
                continue
            o.find("stack:lost", "%s: %s is no longer in the dataset after %s" % (cfg, v, STACK), site(s, STACK))
            continue
        d = L.var(n, v)
        extra = [x for x in d.dims if x not in work]
        if extra:
            o.find("stack:dims", "%s: after %s the variable with %s still has %s" % (cfg, STACK, dims, extra),
                   site(s, STACK))
            return
        if v in sizes:
            continue
        if order and list(d.dims) != [x for x in work if x in d.dims]:
            o.find("stack:order", "%s: after %s a variable has the dimensions %s, processing takes time before "
                   "height" % (cfg, STACK, d.dims), site(s, STACK))
            return
        x = L.ev(L.term(d))
        for ix in indexes(x.sh):
            o.n("obligations")
            w = origin(L, v, dims, d.dims, ix, home, tdim, sizes)
            if w is not None and x.at(ix) != w:
                o.find("stack:values", "%s: after %s element %s of the variable with %s holds another place's value" % (
                    cfg, STACK, dict(zip(d.dims, ix)), dims), site(s, STACK))
                return
    st = s.getattr(m, "stacked_time_dim")
    if not regional:
        if st != K(None) or tdim != "time":
            o.find("stack:none", "%s: a single column is marked as stacked" % cfg, site(s, STACK))
        return
    if st == K(None):
        o.find("stack:mark", "%s: a regional dataset is not marked as stacked" % cfg, site(s, STACK))
        return
    stage[0] = 1
    # what processing adds
    new = {}
    dsr = s.ds_of(m)
    put(s, dsr, "sub_col_field", ("subcolumn", tdim, "lev"), new)
    put(s, dsr, "sub_col_2d", ("subcolumn", tdim), new)
    put(s, dsr, "mean_field", (tdim, "lev"), new)
    put(s, dsr, "transposed", ("lev", tdim), new)
    put(s, dsr, "per_column", (tdim,), new)
    put(s, dsr, "spectra", ("subcolumn", tdim, "lev", "bin"), new)
    put(s, dsr, "edges", ("lev",), new)
    before = {v: L.ev(L.term(L.var(s.dsnode(m), v))) for v in s.dsnode(m).vars if not L.is_coord(s.dsnode(m), v)}
    was = {v: L.var(s.dsnode(m), v) for v in before}
    for sq in (True, False):
        s2 = s.heap
        s.heap = type(s2)(s2) if hasattr(s2, "delta") else s2
        unstacked(s, o, m, L, before, was, home, tdim, sizes, order, sq, nsub, cfg, orig)
        s.heap = s2
        s.layout.sizes["time"] = sizes.get("time", 1)


def places(s, n, d, tdim, sizes):
    """index along d for every place of the working time dimension"""
    L = s.layout
    if d not in n.vars:
        return None
    v = L.var(n, d)
    x = L.ev(L.term(v))
    if v.dims == (tdim,):
        return [y[1] if isinstance(y, tuple) else y for y in x.d]
    return None


def origin(L, v, dims, now, ix, home, tdim, sizes):
    """leaf element that belongs at ix of the working grid, None if it cannot be said"""
    at = dict(zip(now, ix))
    src = []
    for d in dims:
        if d in at and d != tdim:
            src.append(at[d])
        elif sizes.get(d, 1) == 1:
            src.append(0)
        elif home.get(d) is not None and tdim in at:
            src.append(home[d][at[tdim]])
        elif d == tdim and d in at:
            src.append(at[d])
        else:
            return None
    o = 0
    for k, i in zip(L.leaves[v], src):
        o = o * k + i
    return (v, o)


def unstacked(s, o, m, L, before, was, home, tdim, sizes, order, sq, nsub, cfg, orig):
    from engine.interp import AbsRaise
    kw = {"order_dim": order, "squeeze_single_dims": sq}
    cfg = "%s, unstacked%s" % (cfg, "" if sq else " with squeeze_single_dims=False")
    try:
        method(s, m, UNSTACK, kw)
    except AbsRaise as x:
        o.find("unstack:%s" % x.exc, "%s: %s raises %s: %s" % (cfg, UNSTACK, x.exc, x.msg), site(s, UNSTACK))
        return
    n = s.dsnode(m)
    if s.pyval(s.getattr(m, "time_dim")) != "time" or s.getattr(m, "stacked_time_dim") != K(None):
        o.find("unstack:names", "%s: the model's time dimension is %r afterwards, stacked_time_dim %s" % (
            cfg, s.pyval(s.getattr(m, "time_dim")), s.getattr(m, "stacked_time_dim")), site(s, UNSTACK))
    full = dict(sizes)
    full.setdefault("time", 1)
    gone = [d for d, k in (("time", full["time"]), ("subcolumn", nsub)) if sq and k == 1]
    tot = ["subcolumn", "time", "lev"]
    for v, b in before.items():
        d0 = was[v]
        if v not in n.vars:
            o.find("unstack:lost", "%s: %s is no longer in the dataset" % (cfg, v), site(s, UNSTACK))
            continue
        d = L.var(n, v)
        want = set()
        for x in d0.dims:
            want |= {"time", "lat", "lon"} & set(full) if x == tdim else {x}
        want -= set(gone)
        if set(d.dims) != want:
            o.find("unstack:dims", "%s: a variable processed with %s comes out with %s; its dimensions are %s" % (
                cfg, d0.dims, d.dims, sorted(want)), site(s, UNSTACK))
            return
        if order and [x for x in d.dims if x in tot] != [x for x in tot if x in d.dims]:
            o.find("unstack:order", "%s: a variable comes out with %s" % (cfg, d.dims), site(s, UNSTACK))
            return
        u = s.node(d.attrs).items.get("units") if d.attrs is not None else None
        if v in L.leaves and u != K("units of " + v):
            o.find("unstack:attrs", "%s: a variable loses its attributes" % cfg, site(s, UNSTACK))
            return
        x = L.ev(L.term(d))
        if x.sh != tuple(full.get(q, L.sizes[q]) for q in d.dims):
            o.find("unstack:shape", "%s: a variable comes out with shape %s for %s" % (cfg, x.sh, d.dims),
                   site(s, UNSTACK))
            return
        for ix in indexes(b.sh):
            at = dict(zip(d0.dims, ix))
            if tdim in at:
                t = at.pop(tdim)
                for q in ("time", "lat", "lon"):
                    if q in full:
                        at[q] = home[q][t] if home.get(q) is not None else 0
            for q in gone:
                at.pop(q, None)
            o.n("obligations")
            if x.at([at[q] for q in d.dims]) != b.at(ix):
                o.find("unstack:values", "%s: a value processed at %s is not at that place afterwards (variable with "
                       "%s)" % (cfg, at, d0.dims), site(s, UNSTACK))
                return
    for q in ("lat", "lon", "time"):
        if q not in full or q in gone:
            continue
        if q not in n.vars:
            o.find("unstack:coord", "%s: no %s coordinate afterwards" % (cfg, q), site(s, UNSTACK))
            continue
        c = L.var(n, q)
        x = L.ev(L.term(c))
        o.n("obligations")
        if c.dims != (q,) or q in orig and x.d != [(q, i) for i in range(full[q])]:
            o.find("unstack:coord", "%s: the %s coordinate afterwards is not that of the file" % (cfg, q),
                   site(s, UNSTACK))


def main(tier):
    return base.main(
        "C16", tasks(tier), fn,
        "check_and_stack_time_lat_lon and unstack_time_lat_lon are interpreted on datasets whose dimensions have names "
        "and sizes and whose elements are all different; stack, transpose, reshape, rename and squeeze move symbolic "
        "elements. Every element must sit where the stacked coordinates say, and return to its own place.",
        ["xarray's stack, transpose, squeeze, rename, drop_dims and DataArray construction as documented",
         "ten grid layouts, dimension orders permuted; index maps are affine in the sizes"])
