"""Unit-carrying quantities: which dimension a term certainly carries (a pint quantity, not a plain number)."""
from fractions import Fraction

from . import terms as tm

_ALIAS = {"kilogram": ("kg", 1), "kg": ("kg", 1), "g": ("kg", 1), "gram": ("kg", 1), "m": ("m", 1), "meter": ("m", 1),
          "metre": ("m", 1), "micrometer": ("m", 1), "micron": ("m", 1), "um": ("m", 1), "km": ("m", 1), "mm": ("m", 1),
          "cm": ("m", 1), "s": ("s", 1), "second": ("s", 1), "K": ("K", 1), "kelvin": ("K", 1), "degK": ("K", 1),
          "Pa": ("Pa", 1), "pascal": ("Pa", 1), "hPa": ("Pa", 1), "hectopascal": ("Pa", 1), "bar": ("Pa", 1),
          "mbar": ("Pa", 1), "millibar": ("Pa", 1), "Hz": ("s", -1), "GHz": ("s", -1), "hertz": ("s", -1)}
PLAIN = None                 # certainly a plain number
_REG = "ext:pint.UnitRegistry"


class Unknown(Exception):
    pass


def named(n):
    if n in ("dimensionless", "count"):
        return ()
    if n not in _ALIAS:
        raise Unknown(n)
    return (_ALIAS[n][:1] + (Fraction(_ALIAS[n][1]),),)


def join(a, b, k=1):
    d = dict(a)
    for n, e in b:
        d[n] = d.get(n, 0) + k * e
    return tuple(sorted((n, e) for n, e in d.items() if e))


class Dims:
    """dim(t) -> PLAIN or a tuple of (base, exponent) carried as units; raises Unknown"""

    def __init__(self, pars):
        self.pars = pars             # name of a parameter -> the term it was declared with
        self.memo = {}
        self.clash = {}              # node -> the two dimensions added

    def __call__(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Unknown):
                raise r
            return r
        self.memo[t] = Unknown("cycle")
        try:
            r = self.memo[t] = self.of(t)
            return r
        except Unknown as e:
            self.memo[t] = e
            raise

    def sweep(self, root):
        """bottom-up over a term, so that recursion stays shallow"""
        for x in tm.nodes([root]):
            try:
                self(x)
            except Unknown:
                pass

    def of(self, t):
        op, a = t.op, t.args
        if op in ("c", "nan", "in", "lut", "opt", "zeros", "ones", "np:pi", "attrconst"):
            return PLAIN
        if op == "par":
            if a[0] not in self.pars:
                raise Unknown(a[0])
            d = self.pars[a[0]]
            if d is None:
                raise Unknown(a[0])
            return self(d)
        if op == "extm" and len(a) == 2 and isinstance(a[0], tm.T) and a[0].op == _REG:
            n = a[1].args[0] if isinstance(a[1], tm.T) else a[1]
            return named(n)
        if op == "mag":
            if a[0].op == _REG:
                return named("m")
            return PLAIN
        if op == "mul":
            out, q = (), False
            for x in a:
                d = self(x)
                if d is not PLAIN:
                    q, out = True, join(out, d)
            return out if q else PLAIN
        if op == "pow":
            b = self(a[0])
            if b is PLAIN:
                return PLAIN
            if not tm.isnum(a[1]):
                raise Unknown("exponent")
            k = Fraction(a[1].args[0]).limit_denominator(1000)
            return tuple((n, e * k) for n, e in b)
        if op == "add":
            ds = []
            for x in a:
                try:
                    ds.append((x, self(x)))
                except Unknown:
                    ds.append((x, Unknown))
            known = [d for x, d in ds if d is not Unknown and x is not tm.ZERO and x.op not in ("zeros", "nan", "fill")]
            real = {d or () for d in known}
            if len(real) > 1 and any(d for d in known):
                self.clash[t] = sorted(real)
                raise Unknown("clash")
            if Unknown in [d for x, d in ds] or not known:
                raise Unknown("term")
            q = [d for d in known if d is not PLAIN]
            return q[0] if q else PLAIN
        if op == "where" and a[0].op == "isnan" and a[0].args[0] is a[2] and tm.isnum(a[1]):      # fillna
            return self(a[2])
        if op in ("tile", "np:tile", "fillna", "fill", "abs", "neg"):
            xs = [x for x in a if isinstance(x, tm.T)]
            d = self(xs[0])
            if d is PLAIN:
                return PLAIN
            if op in ("fillna", "tile", "np:tile", "abs", "neg"):
                return d
            raise Unknown(op)
        raise Unknown(op)


def text(d):
    return "plain numbers" if d is PLAIN or d == () else " ".join(n + ("" if e == 1 else "^%s" % e) for n, e in d)
