"""C30: subcolumns carry in-cloud means of the class, cloud type and logic they stand for."""
import re

from . import base, occupancy
from .scen import *  # noqa
from engine import ident, units
from engine import terms as tm
from engine.values import *  # noqa

THRESH = 1e-12     # mixing ratios below 1e-18 count as none; sampled well away from it


def tasks(tier):
    out = []
    for m in SIM_MODELS:
        for lg in ("rad", "micro"):
            for n in (None, 1):
                if n == 1 and tier == "quick" and m not in CORE_MODELS:
                    continue
                out.append((m, lg, n))
            out.append(("place", m, lg))
    return out


class P(ident.Point):
    """one grid cell; counts of cloudy subcolumns are a leaf"""
    frac = None

    def o_sum(self, t, a, *r):
        if a.op in ("in", "stale") and "_frac_subcolumns_" in str(a.args[0]):
            return self.leaf("#n")
        return self.leaf("sum#%d" % a.id)

    o_np_sum = o_nansum = o_sum

    def o_idx(self, t, a, k):
        if a.op in ("sum", "np:sum"):
            return self(a)
        return ident.Point.o_idx(self, t, a, k)

    def o_store(self, t, base_, k, v):
        if k.op == "tup" and any(x.op == "idx" and x.args[0].op == "nonzero" and tm.contains(
                x, lambda y: y.op == "in" and "_frac_subcolumns_" in str(y.args[0])) for x in k.args):
            return self(v)
        return ident.Point.o_store(self, t, base_, k, v)

    def o_loop(self, t, dom, head, *vars):
        if dom.op == "while":
            return self.leaf("loop#%d" % t.id)
        return ident.Point.o_loop(self, t, dom, head, *vars)


def expected(c, h, w, lg, n, what, cloudy, q, N, frac):
    if what == "n":
        return N / frac if cloudy else 0.
    if q <= 1e-18:
        return 0.
    return q / frac if cloudy or n == 1 else 0.


def fn(s, task, o):
    if task[0] == "place":
        return occupancy.of(s, task[1:], o, ("logic", "gate"))
    m, lg, n = task
    c = setup(s, m, "KAZR", nsub=n)
    simulate(c, subcol_gen_only=True, **{k: v for k, v in LOGICS[lg].items()})
    out = outputs(c)
    w = writes(c)
    frac = {t: mk("in", k) for k, t in out.items() if "_frac_subcolumns_" in k}
    for name, t in out.items():
        q = re.match(r"(strat|conv)_(q|n)_subcolumns_(\w+)$", name)
        if not q or t.op == "in":
            continue
        kind, what, h = q.groups()
        t = units.si(tm.subst(t, frac))
        site = w.get(name)
        try:
            judge(s, o, c, task, name, t, kind, what, h, site)
        except ident.Unread as e:
            o.unk("%s %s: %s" % (task, name, str(e)[:200]))
        except (ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, ValueError) as e:
            o.unk("%s %s: %r" % (task, name, e))


def judge(s, o, c, task, name, t, kind, what, h, site):
    m, lg, n = task
    fr = "%s_frac_names%s[%s]" % (kind, "_for_rad" if lg == "rad" else "", h)
    qn = "q_names_%s[%s]" % ("stratiform" if kind == "strat" else "convective", h)
    nn = "N_field[%s]" % h
    fl = "%s_frac_subcolumns_%s" % (kind, h)
    gam = [x for x in tm.nodes([t]) if x.op == "random:gamma"]
    o.n("obligations")
    for cloudy in (1, 0):
        for k in range(6):
            few = k == 5
            p0 = ident.Point(k)
            giv = {fl: cloudy, fr: .05 + .9 * ident._rnd(k, "f"), qn: 1e-22 if few else 1e-6 + 1e-3 * ident._rnd(k, "q"),
                   nn: p0.leaf(nn), "#n": 1}
            if few and what == "n":
                continue
            want = expected(c, h, kind, lg, n, what, cloudy, giv[qn], giv[nn], giv[fr])
            if gam and cloudy == 0:
                giv["#n"] = 0          # no cloudy subcolumn here
            got = P(k, giv)(t)
            if not ident.same(got, want):
                o.find("subcolumn-%s:%s" % (what, lg),
                       "%s (%s logic%s): %s is %.4g in a %s subcolumn where the grid-box mean is %.4g and the cloud "
                       "fraction %.4g; the in-cloud mean is %.4g" % (
                           m, lg, ", one subcolumn" if n == 1 else "", name, got, "cloudy" if cloudy else "clear",
                           giv[qn] if what == "q" else giv[nn], giv[fr], want), site)
                return
    if gam:
        gamma(o, task, name, t, gam, giv, fr, qn, fl, site)
    if len(o.samples) < 2:
        o.samples.append("%s %s: %s is the grid mean over %s in cloudy subcolumns, 0 elsewhere" % (m, lg, name, fr))


def part(x, of):
    """(base, 'head' | 'tail', count) of x[:-c] or x[-c:]"""
    if x.op != "idx" or x.args[1].op != "slice":
        raise ident.Unread("part of the draws")
    a, b = x.args[1].args[:2]
    none = lambda y: y.op == "c" and y.args[0] is None     # noqa: E731
    neg = lambda y: tm.mul(tm.c(-1), y)                    # noqa: E731
    if none(a) and not none(b):
        return x.args[0], "head", neg(b)
    if none(b) and not none(a):
        return x.args[0], "tail", neg(a)
    raise ident.Unread("part of the draws")


def gamma(o, task, name, t, gam, giv, fr, qn, fl, site):
    """draws have the in-cloud mean, and the cloudy subcolumns together hold it"""
    if len(gam) != 1:
        raise ident.Unread("more than one draw")
    g = gam[0]
    giv = dict(giv, **{fl: 1, "#n": 7, qn: 3.7e-4})
    mean = giv[qn] / giv[fr]
    p = P(1, giv)
    a, b, cnt = g.args[1:4]
    if not ident.same(p(a) * p(b), mean):
        o.find("gamma-mean", "%s: the gamma draws of %s average %.4g, the in-cloud mean is %.4g" % (
            task[0], name, p(a) * p(b), mean), site)
    if not ident.same(p(cnt), 7):
        raise ident.Unread("number of draws")
    chains = [x for x in tm.nodes([t]) if x.op == "store" and x.args[0].op == "store" and x.args[1].op == "tup"]
    if len(chains) != 1:
        raise ident.Unread("assignment of draws")
    x = chains[0]
    (k1, v1), (k2, v2) = x.args[0].args[1:3], x.args[1:3]

    def which(k):
        for y in tm.nodes([k]):
            if y.op == "idx" and y.args[0].op == "random:permutation":
                return part(y, None)
        raise ident.Unread("assignment of draws")
    b1, side1, c1 = which(k1)
    b2, side2, c2 = which(k2)
    gb, gs, gc = part(v1, None)
    if gb is not g or b1 is not b2 or side1 != gs or c1 is not gc:
        raise ident.Unread("assignment of draws")
    if (side1, side2) != ("head", "tail") or c1 is not c2:
        raise ident.Unread("assignment of draws")
    for k in range(4):
        p = P(k, giv)
        tot = p.leaf("sum#%d" % v1.id) + p(c2) * p(v2)
        if not ident.same(tot, mean * 7):
            o.find("gamma-total", "%s: over its cloudy subcolumns %s adds up to %.4g, the in-cloud mean times their "
                   "number is %.4g" % (task[0], name, tot, mean * 7), site)
            return
    o.n("obligations", 2)


def main(tier):
    return base.main(
        "C30", tasks(tier), fn,
        "For every model definition, both logics and with the subcolumn generator on and off, the terms of the "
        "generated mixing ratios and number concentrations are derived from the source and compared, as formulas, "
        "with grid-box mean / cloud fraction of the same class, cloud type and logic in cloudy subcolumns and zero "
        "elsewhere; for gamma-distributed cloud water the draws' mean and the sum over the cloudy subcolumns.",
        ["a cloudy subcolumn is one whose own fraction flag is set (allocation itself is C09/C27)",
         "numpy.random.gamma(a, b) has mean a b"], tier=tier)
