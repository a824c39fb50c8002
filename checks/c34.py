"""C34: cropping to a time range or a region keeps exactly the samples that were asked for."""
import itertools

from . import base
from .scen import *  # noqa
from engine import elem
from engine import terms as tm
from engine.drive import par, raw_model
from engine.values import *  # noqa

READERS = [("ModelE", {}), ("ModelE", {"load_processed": True}), ("E3SMv1", {}), ("E3SMv1_rain", {}),
           ("E3SMv1_1ice", {}), ("E3SMv1", {"time_dim": "ncol"}), ("E3SMv3", {}), ("E3SMv3", {"time_dim": "ncol"}),
           ("E3SMv3_lut", {}), ("CESM2", {}), ("CESM2", {"time_dim": "ncol"}), ("WRF_morrison", {}), ("WRF_nuwrf", {}),
           ("WRF_nssl", {}), ("DHARMA", {}), ("DHARMA_pir", {}), ("DHARMA", {"load_processed": True})]
BOXED = ["WRF_morrison", "WRF_nuwrf", "WRF_nssl", "DHARMA", "DHARMA_pir"]
TIME_DIM = {m: "Time" if m.startswith("WRF") else "dom_col" if m.startswith("DHARMA") else "time" for m, _ in READERS}
TIMES = [0, 10, 20, 30, 40]
RANGES = [(10, 30), (5, 35), (0, 41), (-5, 1), (40, 99), (10, 11), (-9, 99), (30, 40), (50, 60), (-9, 0), (11, 19)]
LAT, LON = [0., 1., 2., 3., 4.], [10., 11., 12., 13.]
BOXES = [(.9, 10.9, 3.1, 12.1), (-1., 9., 5., 14.), (1.9, 11.9, 2.1, 12.1), (-.1, 9.9, 1.1, 11.1), (2.9, 10.9, 4.1, 13.1)]


def tasks(tier):
    return ([("time", m, kw) for m, kw in READERS] + [("wired", m, None) for m in BOXED] +
            [("latlon", m, None) for m in ("DHARMA",)] + [("xy", m, None) for m in ("DHARMA", "DHARMA_pir")] +
            [("method", m, a) for m in ("ModelE", "DHARMA", "E3SMv1") for a in (None, "time2")])


def mentions(t, leaf, memo):
    r = memo.get(t)
    if r is None:
        r = memo[t] = t is leaf or any(isinstance(x, tm.T) and mentions(x, leaf, memo) for x in t.args)
    return r


def inputs(t, memo):
    """names of the file fields a term reads"""
    r = memo.get(t)
    if r is None:
        if t.op == "in":
            r = frozenset([t.args[0]])
        else:
            r = frozenset().union(*[inputs(x, memo) for x in t.args if isinstance(x, tm.T)])
        memo[t] = r
    return r


def coordinate(t, leaf, memo, imemo, out):
    """t with its largest subterms that read the file but not the request replaced by one coordinate leaf"""
    if not mentions(t, leaf, memo):
        src = inputs(t, imemo)
        if not src or t.op in ("eq", "lt", "le", "not", "and", "or", "dim"):
            return t
        out |= src
        return tm.mk("in", "coordinate")
    if not any(isinstance(x, tm.T) for x in t.args):
        return t
    return tm.mk(t.op, *[coordinate(x, leaf, memo, imemo, out) if isinstance(x, tm.T) else x for x in t.args])


def selections(s, events, leaf, memo):
    """(event, method, dimension, selector) of every selection in the data set that depends on the request"""
    for e in events:
        if e.kind != "ds_method" or e.data["name"] not in ("isel", "sel"):
            continue
        items = []
        for a in e.data["args"]:
            if isinstance(a, Ref) and isinstance(s.node(a.addr), Dct):
                items += list(s.node(a.addr).items.items())
        items += list(e.data["kw"].items())
        for k, v in items:
            if any(mentions(t, leaf, memo) for t in parts(s, v)):
                yield e, e.data["name"], k, v


def parts(s, v):
    if isinstance(v, Slice):
        return [s.term(x) for x in (v.a, v.b) if not (isinstance(x, K) and x.val is None)]
    return [s.term(v)]


def chosen(s, method, v, labels, ev, sub):
    """indices along a dimension with these labels"""
    n = len(labels)
    if isinstance(v, Slice):
        lim = []
        for x in v.__slots__:
            x = getattr(v, x)
            lim.append(None if isinstance(x, K) and x.val is None else elem.down(ev(sub(s.term(x)))))
        if any(isinstance(x, elem.A) for x in lim):
            raise elem.Unread("slice")
        if method == "sel":
            if lim[2] not in (None, 1):
                raise elem.Unread("step")
            return [i for i in range(n) if (lim[0] is None or labels[i] >= lim[0]) and (
                lim[1] is None or labels[i] <= lim[1])]
        return list(range(n))[slice(*[None if x is None else int(x) for x in lim])]
    if method == "sel":
        raise elem.Unread("label selection")
    r = elem.lift(ev(sub(s.term(v))))
    if any(x is None or elem.isnan(x) for x in r.d):
        raise elem.Unread("selector")
    if all(isinstance(x, bool) for x in r.d):
        if r.sh != (n,):
            raise elem.Unread("mask shape")
        return [i for i in range(n) if r.d[i]]
    return [int(x) % n for x in r.d]


def asked(ev, e, leaf, memo, sub):
    """whether the selection is reached, by the conditions on the request; None when not known"""
    ok = True
    for c, want in e.pc:
        if not isinstance(c, tm.T) or not mentions(c, leaf, memo) or "dtype" in kinds(c):
            continue
        try:
            v = elem.down(ev(sub(c)))
        except elem.Unread:
            v = None
        if v is None or isinstance(v, elem.A):
            return None
        if bool(v) != want:
            ok = False
    return ok


def kinds(t):
    return {x for u in tm.nodes([t]) for x in u.args if isinstance(x, str)}


def fn(s, task, o):
    kind, m, kw = task
    fresh(s)
    s.events = []
    {"time": time, "wired": wired, "latlon": box, "xy": box, "method": method}[kind](s, task, o)


def build(s, m, o, what, leaf, **kw):
    """the reader with and without the request"""
    n0 = len(tm._tab)
    try:
        return raw_model(s, m, **kw)
    except AbsRaise as e:
        return e


def untouched(leaf):
    """no value was ever made from the request (but for its type)"""
    for t in list(tm._tab.values()):
        if leaf in t.args and not (t.op == "dim" and "dtype" in t.args) and t.op != "eq":
            return False
    return True


def time(s, task, o):
    _, m, kw = task
    name = "time_range_%s_%s" % (m, "_".join(kw))
    leaf = s.term(par(name, "array"))
    try:
        mm = raw_model(s, m, time_range=par(name, "array"), **kw)
    except AbsRaise as e:
        x = [v for v in s.events if v.kind == "raise"][-1:]
        if "KeyError" in str(e) and "'Time'" in str(e) and m.startswith("WRF"):
            o.find("time-coordinate-lost:WRF", "%s: the time range is compared with the coordinate of a dimension whose "
                   "coordinates the reader has dropped" % m, x[0] if x else None)
        else:
            o.unk("%s: %s" % (m, e))
        return
    o.n("readers")
    cfg = "%s%s" % (m, "".join(", %s=%s" % x for x in kw.items()))
    memo = {}
    sel = list(selections(s, s.events, leaf, memo))
    if not sel:
        if untouched(leaf):
            o.find("ignored:time", "%s: the requested time range is never applied" % cfg, (
                "emc2/core/model.py", 0, "__init__"))
        else:
            o.unk("%s: no selection recognised" % cfg)
        return
    dim = kw.get("time_dim") or TIME_DIM[m]
    judge_time(s, o, cfg, sel, leaf, memo, dim, {"time"} if dim == "ncol" else {dim})


def judge_time(s, o, cfg, sel, leaf, memo, dim, coords):
    imemo = {}
    for e, how, k, v in sel:
        if isinstance(k, K):
            k = k.val
        if isinstance(k, str) and isinstance(dim, str) and k != dim:
            o.find("dimension:time", "%s: the time range selects along '%s', the time dimension is '%s'" % (
                cfg, k, dim), e)
            return
    for rg in RANGES:
        want = [i for i, x in enumerate(TIMES) if rg[0] <= x < rg[1]]
        none = not want
        cur = list(range(len(TIMES)))
        site = sel[0][0]
        sure = True
        for e, how, k, v in sel:
            src = set()

            def sub(t):
                return coordinate(t, leaf, memo, imemo, src)
            lab = [TIMES[i] for i in cur]
            ev = elem.Ev(1, {}, {}, {}, values={leaf.args[0]: elem.A((2,), list(rg)),
                                                "coordinate": elem.A((len(lab),), list(lab))})
            go = asked(ev, e, leaf, memo, sub)
            if go is None:
                sure = False
                break
            if not go:
                continue
            try:
                ix = chosen(s, how, v, lab, ev, sub)
            except (elem.Unread, ZeroDivisionError, ValueError) as u:
                o.unk("%s: %s" % (cfg, u))
                sure = False
                break
            if src and not src & coords and not any(x.startswith("coord") for x in src):
                o.find("coordinate:time", "%s: the time range is compared with %s, the time coordinate is %s" % (
                    cfg, sorted(src), sorted(coords)), e)
                return
            site = e
            cur = [cur[i] for i in ix]
        if not sure:
            o.unk("%s: %s not evaluated" % (cfg, rg))
            continue
        o.n("obligations")
        if none:
            want = list(range(len(TIMES)))
        if cur != want:
            o.find("empties:time" if none and not cur else "range:time",
                   "%s: with samples at %s the range %s keeps %s instead of %s" % (
                       cfg, TIMES, list(rg), [TIMES[i] for i in cur], [TIMES[i] for i in want]), site)
            return
    if not o.samples:
        o.samples.append("%s: %s along %s" % (cfg, sel[0][1], dim))


def method(s, task, o):
    """the cropping method by itself, with the coordinate named"""
    _, m, alt = task
    mm = raw_model(s, m)
    s.events = []
    name = "asked_%s_%s" % (m, alt)
    leaf = s.term(par(name, "array"))
    kw = {"alter_coord": K(alt)} if alt else {}
    try:
        s.call(s.getattr(mm, "_crop_time_range"), [par(name, "array")], kw)
    except AbsRaise as e:
        if alt and "TypeError" in str(e) or "AttributeError" in str(e):
            return
        o.unk("%s: %s" % (m, e))
        return
    memo = {}
    sel = list(selections(s, s.events, leaf, memo))
    if not sel:
        o.unk("%s: no selection recognised" % m)
        return
    dim = getattr(s.field(mm, "time_dim"), "val", TIME_DIM[m])
    judge_time(s, o, "%s, coordinate %s" % (m, alt), sel, leaf, memo, dim, {alt or dim})


def wired(s, task, o):
    _, m, _ = task
    name = "bounding_box_%s" % m
    leaf = s.term(par(name, "array"))
    try:
        raw_model(s, m, bounding_box=par(name, "array"))
    except AbsRaise as e:
        o.unk("%s: %s" % (m, e))
        return
    o.n("readers")
    if untouched(leaf) and not list(selections(s, s.events, leaf, {})):
        o.find("ignored:box", "%s: the requested bounding box is never applied" % m, (
            "emc2/core/model.py", 0, "__init__"))
    else:
        o.n("obligations")


def box(s, task, o):
    kind, m, _ = task
    fname = "_crop_bounding_box" if kind == "latlon" else "_crop_bounding_box_x_y"
    mm = raw_model(s, m)
    s.events = []
    if kind == "latlon":
        for k, v in dict(lat_name="XLAT", lon_name="XLONG", lat_dim="south_north", lon_dim="west_east").items():
            s.set_field(mm, k, K(v))
    name = "box_%s_%s" % (kind, m)
    leaf = s.term(par(name, "array"))
    try:
        s.call(s.getattr(mm, fname), [par(name, "array")], {})
    except AbsRaise as e:
        o.unk("%s: %s" % (m, e))
        return
    memo = {}
    sel = list(selections(s, s.events, leaf, memo))
    if not sel:
        o.unk("%s: no selection recognised" % m)
        return
    dims = ("south_north", "west_east") if kind == "latlon" else ("x", "y")
    sizes = {dims[0]: LAT, dims[1]: LON}
    sh = (2, len(LAT), len(LON))
    grid = {"XLAT": elem.A(sh, [LAT[j] for t, j, i in itertools.product(*map(range, sh))]),
            "XLONG": elem.A(sh, [LON[i] for t, j, i in itertools.product(*map(range, sh))]),
            "x": elem.A((len(LAT),), LAT), "y": elem.A((len(LON),), LON)}
    for bb in BOXES:
        cur = {d: list(range(len(v))) for d, v in sizes.items()}
        site = None
        try:
            for e, how, k, v in sel:
                k = k.val if isinstance(k, K) else k
                if k not in cur:
                    raise elem.Unread("dimension %s" % k)
                ev = elem.Ev(1, {}, {}, {}, values=dict(grid, **{leaf.args[0]: elem.A((4,), list(bb))}))
                if not asked(ev, e, leaf, memo, lambda t: t):
                    raise elem.Unread("condition")
                if cur[k] != list(range(len(sizes[k]))):
                    raise elem.Unread("repeated selection")
                cur[k] = chosen(s, how, v, sizes[k], ev, lambda t: t)
                site = e
        except (elem.Unread, ZeroDivisionError, ValueError) as u:
            o.unk("%s: %s" % (m, u))
            continue
        o.n("obligations")
        for d, (lo, hi) in zip(dims, ((bb[0], bb[2]), (bb[1], bb[3]))):
            want = [i for i, x in enumerate(sizes[d]) if lo <= x <= hi]
            if cur[d] != want:
                o.find("region:%s" % kind, "cells at %s along %s: the box from %s to %s keeps %s instead of %s" % (
                    sizes[d], d, lo, hi, [sizes[d][i] for i in cur[d]], [sizes[d][i] for i in want]), site)
                return
    o.samples.append("%s: %s" % (kind, sorted({str(x[2]) for x in sel})))


def main(tier):
    return base.main(
        "C34", tasks, fn, tier=tier,
        explanation=(
            "Every reader is interpreted with a symbolic time range (and bounding box). The selections on the data set "
            "that depend on the request are collected with the conditions under which they are reached; each selector's "
            "term is evaluated on a small time axis for ranges whose ends lie on, between and outside samples, and must "
            "select start <= t < end along the reader's time dimension by its time coordinate, or leave the data as they "
            "are when no sample is in range. The region methods are judged on a regular grid in the same way. A request "
            "from which no value is ever made is reported as ignored."),
        assumptions=["xarray's isel takes a mask, indices or a slice; sel with a slice includes both ends"])
