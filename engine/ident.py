"""Equality of formulas: fingerprints of terms over the reals (in place of a normal form for ratios, powers and
exponentials).  A term is read pointwise, on layers that are alike: a field equals its neighbours, one layer's
thickness is the difference of heights, and running sums are an unknown multiple of what they sum.
Operators with no such reading make the result Unread; nothing is concluded then.
"""
import cmath
import hashlib
import math

from . import terms as tm

NAN = float("nan")


COND = ("eq", "lt", "le", "not", "and", "or", "isnan", "isfinite", "isinf")


class Unread(Exception):
    pass


class Void(Unread):
    """too few points in the domain of the relation"""


def _rnd(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:7], "big") / float(1 << 56)


# ranges of well-known quantities; any other leaf gets (0.2, 3)
RANGES = {"p": (1500., 105000.), "T": (215., 305.), "q": (1e-5, 2e-2), "z": (100., 15000.), "#dz": (20., 900.),
          "#dp": (50., 1000.), "fluffy[]": (.05, .95)}


class Point:
    def __init__(self, seed, given=None, ranges=None, alias=None):
        """alias: field name -> role ("p", "T", "q", "z")"""
        self.seed = seed
        self.given = given or {}
        self.ranges = dict(RANGES)
        self.ranges.update(ranges or {})
        self.alias = alias or {}
        self.memo = {}
        self.read = set()
        self.alike = True      # whether the other elements of an array are like this one
        self.node = None
        self.bound = {}

    def name(self, t):
        nm = t.args[-1]
        return self.alias.get(nm, nm) if t.op in ("in", "stale") else nm

    def leaf(self, nm):
        if nm in self.given:
            return self.given[nm]
        lo, hi = self.ranges.get(nm) or self.ranges.get(nm.split("[")[0] + "[]", (0.2, 3.))
        if "@" in nm:      # a table column at one size
            k = int(nm[nm.index("@") + 1:])
            lo, hi = (1e-3 * (1 + k), 1e-3 * (1.8 + k)) if "diam" in nm else (lo, hi)
        u = _rnd(self.seed, nm)
        v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo))) if lo > 0 else lo + u * (hi - lo)
        return v

    def __call__(self, t):
        k = (t.id, self.node)
        r = self.memo.get(k)
        if r is None:
            r = self.go(t)
            if not self.bound:
                self.memo[k] = r
        return r

    def column(self, key):
        """a scattering-table column at the current particle size"""
        if self.node is None:
            raise Unread("table outside an integral")
        nm = "%s@%d" % (key, self.node)
        self.read.add(nm)
        return self.leaf(nm)

    def integral(self, f, width):
        """f over particle size, read on two sizes"""
        old = self.node
        try:
            ys, xs = [], []
            for k in (0, 1):
                self.node = k
                ys.append(f())
                xs.append(width())
        finally:
            self.node = old
        if xs[0] == xs[1]:
            raise Unread("integral over nothing")
        return .5 * (ys[0] + ys[1]) * (xs[1] - xs[0])

    def table(self, xs, key):
        """an interpolated table: any smooth function of its coordinates, one per table.
        xs: coordinate name -> value"""
        self.read.add("table " + key)
        v = .5 + _rnd(self.seed, key, "a")
        for n in sorted(xs):
            x = xs[n]
            if isinstance(x, complex) or x != x or x <= 0:
                return NAN
            v *= x ** (.1 + .3 * _rnd(self.seed, key, n))
        return v

    def _lut(self, t):
        """the table column behind a term, and the factor it is multiplied with"""
        f = 1.
        while True:
            if t.op == "mul":
                xs = [x for x in t.args if any(l.op == "lut" for l in tm.vdeps(x))]
                if len(xs) != 1:
                    raise Unread("table values")
                for x in t.args:
                    if x is not xs[0]:
                        f *= self(x)
                t = xs[0]
            elif t.op in ("ravel", "copy", "values", "flatten", "astype", "T", "tile", "to_xarray", "repeat"):
                t = t.args[0]
            elif t.op == "mag" and len(t.args) == 1:
                t = t.args[0]
            elif t.op == "idx" and t.args[0].op == "np:meshgrid" and t.args[1].op == "c":
                t = t.args[0].args[t.args[1].args[0]]
            else:
                break
        if t.op == "lut":
            return ".".join(str(x) for x in [y.args[0] if isinstance(y, tm.T) and y.op == "c" else y
                                             for y in t.args]), f
        raise Unread("table " + t.op)

    def go(self, t):
        op, a = t.op, t.args
        if op == "c":
            v = a[0]
            if isinstance(v, (bool, int, float, complex)):
                return v
            raise Unread("const %r" % (v,))
        if op == "nan":
            return NAN
        if op in ("in", "stale", "par"):
            nm = self.name(t)
            self.read.add(nm)
            return self.leaf(nm)
        if op == "opt":
            if a[-1] in self.given:
                return self.given[a[-1]]
            raise Unread("option " + str(a[-1]))
        if op == "lut":
            return self.column(".".join(tm.show(x, 1) if isinstance(x, tm.T) else str(x) for x in a))
        if op == "bmu":
            if t in self.bound:
                return self(self.bound[t])
            raise Unread("bmu")
        if op in ("extm", "ext"):
            if str(a[0]).startswith("pint") or "pint" in tm.show(t, 2):
                return 1
            raise Unread(op)
        if op == "ext:pint.UnitRegistry":
            return 1
        if op == "mag":
            if a[0].op == "par":
                return self(a[0])
            if a[0].op == "to" and a[0].args[0].op == "par":
                return self(a[0].args[0])
            if not tm.contains(a[0], lambda x: x.op == "to"):
                return self(a[0])          # products of magnitudes; units are carried along, not converted
            raise Unread("mag " + tm.show(t, 6)[:200])
        f = getattr(self, "o_" + op.replace(":", "_").replace(".", "_"), None)
        if f is None:
            raise Unread(op + " " + tm.show(t, 4)[:300])
        return f(t, *a)

    # -- arithmetic
    def o_add(self, t, *a):
        return sum(self(x) for x in a)

    def o_mul(self, t, *a):
        r = 1
        for x in a:
            r = r * self(x)
        return r

    def o_pow(self, t, a, b):
        x, y = self(a), self(b)
        try:
            if isinstance(x, complex) or isinstance(y, complex):
                return x ** y
            if x < 0 and y != int(y):
                return NAN
            if x == 0 and y < 0:
                return math.inf
            return x ** y
        except (OverflowError, ZeroDivisionError):
            return NAN

    def _f(self, f, x):
        if x == 0 and f in (math.log, math.log10):
            return -math.inf
        try:
            return f(x)
        except (ValueError, OverflowError):
            return NAN

    def o_exp(self, t, a):
        return self._f(math.exp, self(a))

    def o_log(self, t, a):
        return self._f(math.log, self(a))

    def o_log10(self, t, a):
        return self._f(math.log10, self(a))

    def o_sqrt(self, t, a):
        return self._f(math.sqrt, self(a))

    def o_cos(self, t, a):
        return math.cos(self(a))

    def o_sin(self, t, a):
        return math.sin(self(a))

    def o_abs(self, t, a):
        return abs(self(a))

    def o_imag(self, t, a):
        v = self(a)
        return v.imag if isinstance(v, complex) else 0.

    def o_real(self, t, a):
        v = self(a)
        return v.real if isinstance(v, complex) else v

    def o_max(self, t, *a):
        return max(self(x) for x in a)

    def o_min(self, t, *a):
        return min(self(x) for x in a)

    def o_ext_scipy_special_gamma(self, t, a):
        return self._f(math.gamma, self(a))

    def o_np_polyval(self, t, c, x):
        if c.op not in ("tup", "lst", "list"):
            raise Unread("polyval of " + c.op)
        v, y = 0., self(x)
        for k in c.args:
            v = v * y + self(k)
        return v

    # -- conditions
    def o_lt(self, t, a, b):
        return self(a) < self(b)

    def o_le(self, t, a, b):
        return self(a) <= self(b)

    def o_eq(self, t, a, b):
        return self(a) == self(b)

    def o_not(self, t, a):
        return not self(a)

    def o_and(self, t, *a):
        return all([self(x) for x in a])

    def o_or(self, t, *a):
        return any([self(x) for x in a])

    def o_isnan(self, t, a):
        v = self(a)
        return v != v

    def o_isfinite(self, t, a):
        v = self(a)
        return abs(v) < math.inf

    def o_isinf(self, t, a):
        return abs(self(a)) == math.inf

    def o_where(self, t, c, a, b):
        return self(a) if self(c) else self(b)

    o_phi = o_where

    # -- shape only
    def _first(self, t, a, *r):
        return self(a)

    o_tile = o_flip = o_T = o_squeeze = o_transpose = o_np_transpose = o_expand_dims = o_broadcast_to = _first
    o_astype = o_copy = o_values = o_swapaxes = o_repeat = _first

    def o_fill(self, t, v, *r):
        return self(v)

    def o_trapz(self, t, y, x, *r):
        return self.integral(lambda: self(y), lambda: self(x))

    def o_np_interp(self, t, x, xs, ys, *r):
        if r:
            raise Unread("interp")
        xn, xf = self._lut(xs)
        yn, yf = self._lut(ys)
        return yf * self.table({xn: self(x) / xf}, yn)

    def o_call(self, t, f, *args):
        if f.op not in ("ext:scipy.interpolate.RegularGridInterpolator", "ext:scipy.interpolate.LinearNDInterpolator"):
            raise Unread("call")
        if len(args) == 1 and args[0].op == "tup":
            args = args[0].args
        pts = f.args[0]
        if pts.op in ("stack", "np:column_stack", "column_stack"):
            pts = pts.args[0]
        if pts.op != "tup" or len(pts.args) != len(args):
            raise Unread("interpolator points")
        xs = {}
        for q, x in zip(pts.args, args):
            n, sc = self._lut(q)
            if n in xs:
                raise Unread("interpolator points")
            xs[n] = (self(x) if x.op != "lut" else self(x)) / sc
        yn, yf = self._lut(f.args[1])
        return yf * self.table(xs, yn)

    def o_map(self, t, body, *r):
        return self(body)

    def o_tup(self, t, *a):
        if len(a) != 1:
            raise Unread("tup")
        return self(a[0])

    def o_stack(self, t, tp, *r):
        if tp.op != "tup" or len(tp.args) != 1:
            raise Unread("stack")
        return self(tp.args[0])

    def o_all(self, t, a, *r):
        if a.op == "tup" and not (len(a.args) == 1 and a.args[0].op == "map"):
            return all([self(x) for x in a.args])
        return bool(self(a)) and self.alike

    def o_any(self, t, a, *r):
        if a.op == "tup" and not (len(a.args) == 1 and a.args[0].op == "map"):
            return any([self(x) for x in a.args])
        return bool(self(a)) or not self.alike

    def o_loop(self, t, dom, head, *vars):
        old = dict(self.bound)
        try:
            post = None
            for k in range(0, len(vars), 3):
                sym, init, po = vars[k:k + 3]
                self.bound[sym] = init
                if sym is head:
                    post = po
            if post is None:
                raise Unread("loop head")
            return self(post)
        finally:
            self.bound = old

    def o_idx(self, t, a, k):
        if k.op == "c" and isinstance(k.args[0], str):
            return self.pick(a, k.args[0])
        if a.op == "np:meshgrid" and k.op == "c" and k.args[0] in (0, 1):
            return self(a.args[k.args[0]])
        if k.op in COND:
            return self(a)
        for x in (k.args if k.op == "tup" else (k,)):
            if not (x.op in ("slice", "bv", "c", "rng")):
                raise Unread("idx")
            if x.op == "c" and not (x.args[0] is None or x.args[0] is Ellipsis):
                raise Unread("idx element")
        return self(a)

    def pick(self, a, name):
        key = a
        while True:
            if a.op in ("to_xarray", "copy", "deepcopy"):
                a = a.args[0]
            elif a.op == "store" and a.args[1].op == "c":
                if a.args[1].args[0] == name:
                    return self(a.args[2])
                a = a.args[0]
            else:
                break
        return self.column("%s.%s" % (tm.show(a, 2), name))

    def o_store(self, t, base, k, v):
        if k.op in COND:
            return self(v) if self(k) else self(base)
        for x in (k.args if k.op == "tup" else (k,)):
            if x.op not in ("slice", "bv") and not (x.op == "c" and x.args[0] is Ellipsis):
                raise Unread("store " + tm.show(t, 3)[:300])
        self(base)
        return self(v)

    def _zero(self, t):
        return t.op == "fill" and t.args[0] is tm.ZERO or t is tm.ZERO

    def o_concat(self, t, tp, *r):
        xs = [x for x in tp.args if not self._zero(x)]
        if len(xs) != 1:
            raise Unread("concat")
        return self(xs[0])

    def o_cumsum(self, t, a, *r):
        self.read.add("#sum")
        return self(a) * self.leaf("#layers")

    o_np_nancumsum = o_nancumsum = o_cumsum

    def o_diff(self, t, a, *r):
        def at(h):
            p = type(self)(self.seed, dict(self.given), self.ranges, self.alias)
            p.bound, p.node, p.alike = self.bound, self.node, self.alike
            p.given["z"] = self.leaf("z") + h * self.leaf("#dz")
            p.given["p"] = self.leaf("p") - h * self.leaf("#dp")
            r = p(a)
            self.read |= p.read
            return r
        self.read.add("#dz")
        return at(1.) - at(0.)


def same(x, y, tol=1e-6):
    if x != x or y != y:
        return (x != x) == (y != y)
    return abs(x - y) <= tol * max(abs(x), abs(y)) or abs(x - y) < 1e-300


def compare(t, ref, n=24, given=None, ranges=None, alias=None, seed0=0, sat=False, alike=True):
    """None if the term equals ref(Point) at n independent points, else (values read, got, expected).
    Raises Unread when the term has no pointwise reading.  sat: points where both are 0 or 1 say nothing.  A single small difference is taken for rounding."""
    small = []
    void = 0
    for k in range(n):
        p = Point(seed0 + k, dict(given or {}), ranges, alias)
        p.alike = alike
        got = p(t)
        want = ref(p)
        if want != want or sat and got == want and want in (0, 1):
            void += 1          # outside the domain of the relation
            continue
        if not same(got, want):
            r = {x: p.leaf(x) for x in sorted(p.read)}, got, want
            if not same(got, want, 1e-4):
                return r
            small.append(r)
    if void > (n - 3 if sat else n // 2):
        raise Void("outside the domain of the relation")
    return small[0] if len(small) > 2 else None
