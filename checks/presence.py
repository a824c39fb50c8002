"""Totals where some classes or cloud types are absent from a bin: every stored total is compared with what the fields
it totals hold there, for every pattern of presence (identity of formulas at independent points, engine.ident)."""
import math
import re

from .scen import *  # noqa
from . import c28
from engine import ident, units

ADD = ("beta_p", "alpha_p", "OD")
Unread = (ident.Unread, ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, ValueError,
          RecursionError)


def patterns(classes, clouds):
    """[(name, set of absent (class, cloud))]"""
    out = []
    for w in clouds:
        for h in classes:
            out.append(("%s absent from %s" % (h, w), {(h, w)}))
            if len(classes) > 2:
                out.append(("only %s in %s" % (h, w), {(g, w) for g in classes if g != h}))
        out.append(("nothing in %s" % w, {(g, w) for g in classes}))
    if len(clouds) > 1:
        for h in classes:
            out.append(("%s absent" % h, {(h, w) for w in clouds}))
        out.append(("%s in %s, the rest in %s" % (classes[0], *clouds),
                    {(g, clouds[0]) for g in classes[1:]} | {(classes[0], clouds[1])}))
    return out


class Case:
    def __init__(self, s, task, o):
        m, i, lg, mie = task[:4]
        some = task[4] if len(task) > 4 else None
        if some:
            have = setup(s, m, i).all_classes
            some = [h for h in some if h in have] or None
        self.cfg = "%s with %s (%s logic%s%s)" % (m, i, lg, ", Mie ice" if mie else "",
                                                 ", hyd_types=%s" % list(some) if some else "")
        self.c, sub, out = staged(s, m, i, lg, mie_for_ice=mie, setup_kw=dict(classes=list(some)) if some else None)
        self.s, self.o = s, o
        self.R = c28.Ref(self.c, sub, mie, None)
        self.w = writes(self.c)
        self.out = {k: units.si(t) for k, t in out.items()}
        self.giv, self.rng = c28.given_for(self.c, sub), c28.ranges_for(sub)
        self.sub = sub
        self.classes = list(self.c.classes)
        self.clouds = ["strat"] + (["conv"] if self.c.conv else [])
        self.k = 0
        self.re = {}
        for w in self.clouds:
            x = s.field(self.c.m, w + "_re_fields")
            it = s.node(x.addr).items if isinstance(x, Ref) else {}
            self.re[w] = {h: getattr(it.get(h), "val", None) for h in self.classes}

    def point(self, seed, absent=(), alike=True, undef=False):
        g = dict(self.giv)
        for h, w in absent:
            for n in ("%s_frac_subcolumns_%s", "%s_q_subcolumns_%s", "%s_n_subcolumns_%s"):
                if n % (w, h) in self.sub:
                    g[n % (w, h)] = 0
        if undef:
            gone = {self.re[w].get(h) for h, w in absent}
            kept = {n for w in self.clouds for h, n in self.re[w].items() if (h, w) not in absent}
            for n in gone - kept - {None}:
                g[n] = ident.NAN
        p = ident.Point(seed, g, c28.thin(self.rng, self.k), self.R.role)
        p.alike = alike
        return p

    def scale(self, name):
        """thin the hydrometeors until the transmittance is neither 0 nor 1"""
        for k in (0, 2, 4, 6, 8, 10, 12, 15, 18):
            self.k = k
            try:
                v = self.point(1)(self.out[name])
            except Unread:
                return
            if v == v and 1e-6 < v < .9:
                return
        self.k = 0


def lin(x):
    return 10 ** (x / 10) if x == x and x > -math.inf else 0.


def z(x):
    return x if x == x and abs(x) < math.inf else 0.


def gone(x):
    """nothing, as stored: zero, undefined or minus infinity in dB"""
    return x != x or x == 0 or x == -math.inf


class Within:
    """C01: totals over classes within one cloud type"""

    def __init__(self, C):
        self.C = C

    def names(self):
        for k in sorted(self.C.out):
            m = re.match(r"sub_col_(Ze|Ze_att|Vd|sigma_d|beta_p|alpha_p|OD)_tot_(strat|conv)$", k) or \
                re.match(r"sub_col_(LDR)_(strat|conv)$", k) or re.match(r"(hyd_ext)_(strat|conv)$", k)
            if m:
                yield k, m.group(1), m.group(2)

    def want(self, p, k, var, w, single):
        """(expected, whether nothing is there)"""
        C = self.C
        f = lambda v, h: p(C.out["sub_col_%s_%s_%s" % (v, h, w)])    # noqa: E731
        H = C.classes
        if var in ADD:
            return sum(z(f(var, h)) for h in H)
        if var in ("Ze", "Ze_att"):
            t = sum(lin(f("Ze", h)) for h in H)
            if var == "Ze_att":
                for n in ("hyd_ext_" + w, "atm_ext"):
                    x = p(C.out[n])
                    t *= x if x == x else 1
            return 10 * math.log10(t) if t > 0 else None
        if var in ("Vd", "sigma_d"):
            W = {h: lin(f("Ze", h)) for h in H}
            t = sum(W.values())
            if t <= 0:
                return None
            V = sum(W[h] * z(f("Vd", h)) for h in H) / t
            if var == "Vd":
                return V
            x = sum(W[h] * (z(f("sigma_d", h)) ** 2 + (z(f("Vd", h)) - V) ** 2) for h in H if W[h] > 0) / t
            return math.sqrt(x)
        if var == "hyd_ext":
            e = 1.
            for q in single.values():
                x = q(C.out[k])
                e *= x if x == x else 1
            return e
        if var == "LDR":
            n = d = 0.
            for h, q in single.items():
                b = z(q(C.out["sub_col_beta_p_%s_%s" % (h, w)]))
                n += b * z(q(C.out[k]))
                d += b
            return n / d if d > 0 else None


class Across:
    """C02: totals over cloud types"""

    def __init__(self, C):
        self.C = C

    def names(self):
        for k in sorted(self.C.out):
            m = re.match(r"sub_col_(Ze|Ze_att|beta_p|alpha_p|OD|LDR|beta_att)_tot$", k) or re.match("(detect)_mask$", k)
            if m:
                yield k, m.group(1), None

    def want(self, p, k, var, w, single):
        C = self.C
        f = lambda v, w: p(C.out["sub_col_%s_%s" % (v, w)])    # noqa: E731
        W = C.clouds
        if var in ADD:
            return sum(z(f(var + "_tot", w)) for w in W)
        if var in ("Ze", "Ze_att", "detect"):
            t = sum(lin(f("Ze_tot", w)) for w in W)
            if var != "Ze":
                for n in ["hyd_ext_" + w for w in W] + ["atm_ext"]:
                    x = p(C.out[n])
                    t *= x if x == x else 1
            r = 10 * math.log10(t) if t > 0 else None
            if var == "detect":
                return not (r is not None and p(C.out["Ze_min"]) <= r)
            return r
        if var == "LDR":
            b = {w: z(f("beta_p_tot", w)) for w in W}
            d = sum(b.values())
            return sum(b[w] * z(f("LDR", w)) for w in W if b[w] > 0) / d if d > 0 else None
        if var == "beta_att":
            b = sum(z(f("beta_p_tot", w)) for w in W)
            od = sum(z(f("OD_tot", w)) for w in W)
            eta = C.R.inst(p, "eta")
            return (p(C.out["sigma_180_vol"]) + b) * p(C.out["tau"]) * math.exp(-2 * eta * od)


def agree(got, want):
    if want is None:
        return gone(got)
    if isinstance(want, bool):
        return bool(got) == want
    if got != got:
        return want == 0 or want != want
    return abs(got - want) <= 1e-6 * max(abs(got), abs(want), 1e-300) or abs(got - want) < 1e-250


FEW = (("cl",), ("ci",), ("pl", "cl"))


def subset(s, task, o):
    """a field of one class does not depend on which other classes are asked for"""
    m, i, lg = task[:3]
    have = {}
    cl = setup(s, m, i).all_classes
    for h in cl:
        try:
            c, sub, out = staged(s, m, i, lg, setup_kw=dict(classes=[h]))
        except AbsRaise as e:
            o.unk("%s: %s" % (task, e))
            continue
        have[h] = (c, set(out))
    try:
        c, sub, full = staged(s, m, i, lg)
    except AbsRaise as e:
        o.unk("%s: %s" % (task, e))
        return
    w = writes(c)
    for h, (c1, out) in have.items():
        for k in sorted(full):
            mt = re.match(r"sub_col_\w+?_(%s)(_strat|_conv)?$" % "|".join(cl), k)
            if not mt or mt.group(1) != h:
                continue
            o.n("obligations")
            if k not in out:
                o.find("asked-alone:%s" % c28.what_of(k, lg), "%s with %s (%s logic): %s is calculated when every class is "
                       "asked for but not for hyd_types=['%s']" % (m, i, lg, k, h), w.get(k))


def judge(s, task, o, rule, seeds=(1, 2)):
    try:
        C = Case(s, task, o)
    except AbsRaise as e:
        o.unk("%s: %s" % (task, e))
        return
    Q = rule(C)
    for k, var, w in Q.names():
        if var in ("hyd_ext", "Ze_att", "detect"):
            C.scale("hyd_ext_" + (w or "strat"))
        elif var == "beta_att":
            C.scale(k)
        else:
            C.k = 0
        done = False
        for pn, A in [("everything present", set())] + patterns(C.classes, [w] if w else C.clouds):
            if done:
                break
            for alike in (True, False):
                for undef in (False, True):
                    if not A and (undef or not alike):
                        continue
                    bad = []
                    for seed in seeds:
                        p = C.point(seed, A, alike, undef)
                        sg = {}
                        if var in ("hyd_ext", "LDR") and w:
                            for h in C.classes:
                                if (h, w) not in A:
                                    sg[h] = C.point(seed, {(g, w) for g in C.classes if g != h}, alike, False)
                        try:
                            want = Q.want(p, k, var, w, sg)
                            got = p(C.out[k])
                        except Unread as e:
                            o.unk("%s: %s, %s: %r" % (C.cfg, k, pn, e))
                            done = True
                            break
                        o.n("obligations")
                        if not agree(got, want):
                            bad.append((got, want))
                    if done:
                        break
                    if len(bad) == len(seeds):
                        g, wt = bad[0]
                        o.find("combined:%s" % c28.what_of(k, task[2]),
                               "%s: %s is not the combination of the fields it totals where %s%s%s: it holds %s, they "
                               "give %s" % (C.cfg, k, pn, "" if alike else " while other subcolumns hold it",
                                            " and its effective radius is undefined" if undef else "", show(g), show(wt)),
                               C.w.get(k))
                        done = True
                        break
                if done:
                    break


def show(x):
    return "nothing" if x is None else "%.6g" % x if isinstance(x, (int, float)) else str(x)
