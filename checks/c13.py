"""C13: fields are converted from the unit they declare to the unit a formula assumes."""
from . import base, c18, c28, c31
from .scen import *  # noqa
from engine import units
from engine import terms as tm
from engine.drive import raw_model
from engine.values import *  # noqa

ALT = {"Pa": ("pascal", "hPa", "kPa", "bar"), "K": ("kelvin", "celsius"), "m": ("meter", "km", "cm")}
READERS = ("ModelE", "DHARMA", "DHARMA_pir")


def tasks(tier):
    out = [("flow", m, i, lg) for m in SIM_MODELS for i in ("KAZR", "HSRL") for lg in LOGICS]
    out += [("reader", m) for m in READERS]
    keep = []
    for t in c28.tasks("quick"):
        if t[0] == "sim" and (t[1] not in CORE_MODELS or t[4]) and tier == "quick":
            continue
        if t[0] in ("sim", "cosp"):
            keep.append(("target", t))
    keep += [("target", ("state", m)) for m in READERS]
    out += [("cosp", m) for m in CORE_MODELS]
    return out + keep


class Probe:
    """collects what another check would report"""
    def __init__(self):
        self.bad, self.ok, self.unks = {}, 0, 0
        self.samples = [0, 0, 0]

    def find(self, key, msg, site=None, path=()):
        self.bad[msg.split(":")[0] + key] = (key, msg, site)

    def n(self, name, k=1):
        self.ok += k

    def unk(self, what):
        self.unks += 1


def roles(s, m):
    out = {}
    for a, what, dim in (("p_field", "pressure", "Pa"), ("T_field", "temperature", "K"), ("z_field", "height", "m")):
        n = s.field(m, a)
        if isinstance(n, K):
            out[n.val] = (what, dim)
    return out


def unit_free(x, leaf):
    """a comparison of a field with itself (an order test) or with a limit the user gives does not depend on units"""
    if x.op not in ("lt", "le", "eq"):
        return False
    a, b = x.args[:2]

    def only(y):
        ins = {z.args[0] for z in tm.nodes([y]) if z.op in ("in", "stale")}
        return ins == {leaf} and not any(z.op == "c" and isinstance(z.args[0], (int, float)) and not isinstance(
            z.args[0], bool) and z.args[0] not in (0, 1, -1) for z in tm.nodes([y]))

    def user(y):
        ns = tm.nodes([y])
        return any(z.op == "opt" for z in ns) and not any(z.op in ("in", "stale") for z in ns)
    return only(a) and (only(b) or user(b) or b is tm.ZERO) or only(b) and (user(a) or a is tm.ZERO)


SHAPE = {"dim", "shape", "len", "ndim", "attr", "gix", "unitsof", "zeros_like", "ones_like", "full_like"}


def raw_uses(t, names):
    """(leaf, parent term) where a field's numbers are used without a conversion"""
    out, seen = {}, set()
    stack = [(t, None)]
    while stack:
        x, par = stack.pop()
        if x.op in ("in", "stale") and x.args[0] in names:
            out.setdefault(x.args[0], par)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in SHAPE or x.op == "mag" and units.parts(x) is not None:
            continue
        if x.op in ("lt", "le", "eq"):
            ls = {z.args[0] for z in tm.nodes([x]) if z.op in ("in", "stale") and z.args[0] in names}
            if len(ls) == 1 and unit_free(x, next(iter(ls))):
                continue
        if x.op == "mag":                       # a quantity read as it is: its unit is whatever the file declares
            pass
        for a in x.args:
            if isinstance(a, tm.T):
                stack.append((a, x))
    return out


def declared(s, m, name):
    """unit label a reader sets, None if the file's own is kept"""
    try:
        at, _ = s.attrs_of(m, name)
    except Exception:
        return None
    v = at.get("units") if at else None
    return v.val if isinstance(v, K) else v if isinstance(v, str) else None


def own_unit(d, leaf, lab):
    """does the declared-unit term d stand for the unit of that field?"""
    if d.op == "attr":
        return d.args[0] == leaf if not isinstance(d.args[0], tm.T) else tm.contains(d, lambda y: y.op == "c" and y.args[0] == leaf)
    if d.op == "c":
        u, w = units.unit(d.args[0]), units.unit(lab) if lab else None
        if lab is None:
            return False
        return u is not None and u == w or d.args[0] == lab
    return None


def judge(s, m, o, name, t, rl, labs, w, where, symbolic):
    o.n("obligations")
    for leaf, par in raw_uses(t, {k for k in rl if symbolic[k]}).items():
        o.find("raw:%s" % rl[leaf][0],
               "%s: %s uses the numbers of the %s field as they are in the file (in %s); they are not converted from the "
               "unit the field declares" % (where, name, rl[leaf][0], par.op if par is not None else "the result"),
               w)
    for x, body, d, tgt in units.conversions(t):
        if body.op not in ("in", "stale") or body.args[0] not in rl:
            continue
        leaf = body.args[0]
        if not symbolic[leaf] and labs[leaf] is None:
            continue
        ok = own_unit(d, leaf, labs[leaf])
        if ok is False:
            o.find("declared:%s" % rl[leaf][0],
                   "%s: in %s the %s field is converted from %s, which is not the unit the field declares" % (
                       where, name, rl[leaf][0], d.args[0] if d.op == "c" else tm.show(d, 2)), w)
        u = units.unit(tgt)
        if u is not None and u[0] != rl[leaf][1]:
            o.find("dimension:%s" % rl[leaf][0], "%s: in %s the %s field is converted to %s" % (
                where, name, rl[leaf][0], tgt), w)


def fn(s, task, o):
    if task[0] == "target":
        return target(s, task[1], o)
    if task[0] == "reader":
        return reader(s, task[1], o)
    if task[0] == "cosp":
        return phases(s, task[1], o)
    _, m, i, lg = task
    try:
        c, sub, out = staged(s, m, i, lg)
    except AbsRaise as e:
        o.unk("%s: %s" % (task, e))
        return
    rl = roles(s, c.m)
    labs, sym = {}, {}
    for k in rl:
        labs[k] = declared(s, c.m, k)
        sym[k] = s.terms_of(c.m).get(k) is not None and s.terms_of(c.m)[k].op == "in" and labs[k] is None
    w = writes(c)
    for st, ts in (("subcolumns", sub), ("simulation", out)):
        for name, t in ts.items():
            if t.op == "in":
                continue
            judge(s, c.m, o, name, t, rl, labs, w.get(name), "%s %s %s" % (m, i, lg), sym)
    if not any(sym.values()) and m in READERS:
        o.unk("%s: no field keeps its file's unit" % m)
    o.samples[:] = o.samples or ["%s %s %s: %s" % (m, i, lg, ", ".join("%s from %s" % (
        rl[k][0], "its own units attribute" if sym[k] else labs[k]) for k in rl))]


def phases(s, m, o):
    c = c18.prepared(s, m, "HSRL")
    for f in ("lidar_emulate_cosp_phase", "lidar_classify_phase"):
        r = run(s, CL, f, [c.i, c.m], {})
        if r.raised is not None:
            o.unk("%s %s: %s" % (m, f, r.raised))
            continue
        w = {e.data.get("name"): e for e in r.events if e.kind == "dsset"}
        rl = roles(s, c.m)
        labs = {k: declared(s, c.m, k) for k in rl}
        sym = {k: k in s.terms_of(c.m) and s.terms_of(c.m)[k].op == "in" and labs[k] is None for k in rl}
        for name in w:
            t = s.terms_of(c.m).get(name)
            if t is not None:
                judge(s, c.m, o, name, t, rl, labs, w[name], "%s %s" % (m, f), sym)


def reader(s, m, o):
    fresh(s)
    s.events = []
    try:
        mm = raw_model(s, m)
    except AbsRaise as e:
        o.unk("%s: %s" % (m, e))
        return
    rl = roles(s, mm)
    terms = s.terms_of(mm)
    labs = {k: declared(s, mm, k) for k in rl}
    sym = {k: k in terms and terms[k].op == "in" and labs[k] is None for k in rl}
    w = {}
    for e in s.events:
        if e.kind == "dsset":
            w[e.data.get("name")] = e
    for name, t in terms.items():
        if t.op == "in":
            continue
        judge(s, mm, o, name, t, rl, labs, w.get(name), m, sym)


def target(s, task, o):
    units.SWAP.clear()
    p = Probe()
    ask = c31.fn if task[0] == "state" else c28.fn
    ask(s, task, p)
    o.n("obligations", p.ok)
    if not p.bad:
        return
    seen = set()
    tgts = set()
    for name, t in (x for x in all_terms(s, task)):
        for x, body, d, tgt in units.conversions(t):
            if body.op in ("in", "stale"):
                tgts.add((body.args[0], tgt))
    for leaf, tgt in sorted(tgts):
        u = units.unit(tgt)
        for alt in ALT.get(u[0] if u else None, ()):
            if units.unit(alt) == u or not set(p.bad) - seen:
                continue
            units.SWAP.clear()
            units.SWAP[leaf, tgt] = alt
            q = Probe()
            try:
                ask(s, task, q)
            finally:
                units.SWAP.clear()
            for k in set(p.bad) - set(q.bad) - seen:
                if q.ok < p.ok:
                    continue
                seen.add(k)
                key, msg, site = p.bad[k]
                o.find("target:%s" % u[0], "%s: the formula holds if the field %s is converted to %s, but the code "
                       "converts it to %s" % (msg.split(":")[0] + " (%s)" % key.split(":")[-1], leaf, alt, tgt), site)


def all_terms(s, task):
    if task[0] == "state":
        fresh(s)
        return list(s.terms_of(raw_model(s, task[1])).items())
    if task[0] == "sim":
        _, m, i, lg, mie, cd = task[:6]
        kw = dict(mie_for_ice=mie)
        if cd is not None:
            kw["calc_dispersion"] = cd
        if len(task) > 6:
            kw["setup_kw"] = {"classes": list(task[6])}
            kw["hyd_types"] = list(task[6])
        c, sub, out = staged(s, m, i, lg, **kw)
        return list(sub.items()) + list(out.items())
    from .c28 import cosp_terms
    return cosp_terms(s, task)


def main(tier):
    return base.main(
        "C13", tasks(tier), fn,
        "Value flow of the pressure, temperature and height fields into every simulated field of every model definition, "
        "instrument kind and logic (and into the fields readers derive): each use passes through a conversion from the "
        "unit label of that same field; where the published relation behind a field is known, the conversion's target is "
        "the unit that relation assumes.",
        ["height limits given by the user are in the unit of the model's height field"], tier=tier)
