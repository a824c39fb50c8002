"""Vertical orientation of value-flow terms: which way path integrals run."""
from . import terms as tm
from .terms import T

CUM = {"cumsum", "nancumsum", "np:cumsum"}
FLIP = {"flip", "np:flip"}
NEUTRAL = {"c", "lut", "par", "opt", "nan", "inf", "dim", "gix", "attr", "ext", "extm", "unit", "bv", "bmu", "fill",
           "range", "kw", "slice"}
PASS = {"tile", "where", "mag", "to", "astype", "values", "isnan", "abs"}


def slices(t):
    """index arguments of an idx term as a list of terms"""
    a = t.args[1:]
    if len(a) == 1 and isinstance(a[0], T) and a[0].op == "tup":
        return list(a[0].args)
    return list(a)


def cval(x):
    if isinstance(x, T):
        return x.args[0] if x.op == "c" else None if x.op != "none" else None
    return x


def is_slice(x):
    return isinstance(x, T) and x.op == "slice"


def kwargs(t):
    return {a.args[0]: a.args[1] for a in t.args if isinstance(a, T) and a.op == "kw" and len(a.args) == 2}


def axis_of(t, pos=1):
    k = kwargs(t)
    if "axis" in k:
        return cval(k["axis"])
    if len(t.args) > pos and not (isinstance(t.args[pos], T) and t.args[pos].op == "kw"):
        return cval(t.args[pos])
    return None


class Orient:
    def __init__(self, shape=None):
        self.shape = shape or (lambda t: None)
        self.memo = {}
        self.problems = []

    def rank(self, t):
        try:
            s = self.shape(t)
        except Exception:
            return None
        return None if s is None else len(s)

    def vertical(self, t, ax):
        """True/False/None: is ax the last axis of t"""
        if ax == -1:
            return True
        r = self.rank(t)
        if not isinstance(ax, int) or r is None:
            return None if ax not in (1, 2) else True
        return ax == r - 1 or ax == -1

    def __call__(self, t):
        """(frame, directions); frame None|'nat'|'rev'|'mix'"""
        r = self.memo.get(t.id)
        if r is None:
            self.memo[t.id] = (None, frozenset())
            r = self.go(t)
            self.memo[t.id] = r
        return r

    def join(self, rs, t=None):
        f, d = None, frozenset()
        for a, b in rs:
            d |= b
            if a is None or a == f:
                continue
            f = a if f is None else "mix"
        return f, d

    def go(self, t):
        op = t.op
        if op in NEUTRAL:
            return None, frozenset()
        if op in ("in", "stale", "rand"):
            r = self.rank(t)
            return (None if r in (0, 1) and op != "stale" else "nat"), frozenset()
        if op == "unk":
            return None, frozenset("?")
        kids = [self(x) for x in t.args if isinstance(x, T)]
        f, d = self.join(kids)
        if f == "mix" and all(k[0] != "mix" for k in kids):
            self.problems.append(("misaligned", t))
        if op in FLIP:
            v = self.vertical(t.args[0], axis_of(t))
            if v is None and axis_of(t) is None:
                return f, d | {"?"}
            if v is False:
                return f, d
            return {"nat": "rev", "rev": "nat"}.get(f, f), d
        if op == "idx":
            ix = slices(t)
            for x in ix:
                if is_slice(x) and len(x.args) == 3 and cval(x.args[2]) == -1:
                    if x is ix[-1]:
                        return {"nat": "rev", "rev": "nat"}.get(f, f), d
            return f, d
        if op in CUM:
            v = self.vertical(t.args[0], axis_of(t))
            if v is False:
                self.problems.append(("axis", t))
                return f, d
            if v is None or f in (None, "mix"):
                return f, d | {"?"}
            me = "up" if f == "nat" else "down"
            self.shifts(t, me)
            return f, d | {me}
        if op == "diff" and d:
            k = kwargs(t)
            if f in ("nat", "rev") and self.vertical(t.args[0], axis_of(t)) is not False:
                # change towards the next element, attributed to this one
                if "append" in k:
                    return f, d | {"up" if f == "nat" else "down"}
            return f, d
        if op == "add" and any(self.negcum(x) for x in t.args):
            return f, d | {"?"}
        return f, d

    def negcum(self, x):
        """total minus running total: the other direction in disguise"""
        return x.op == "mul" and any(a.op == "c" and isinstance(a.args[0], (int, float)) and a.args[0] < 0
                                     for a in x.args) and any(a.op in CUM for a in x.args)

    def shifts(self, t, me):
        """layers entering a running total are the ones the beam has already crossed"""
        fs, st = [], [(t.args[0], False)]
        while st:
            x, rev = st.pop()
            if x.op == "mul" or x.op == "add":
                st += [(a, rev) for a in x.args]
            elif x.op in FLIP:
                st.append((x.args[0], not rev))
            elif x.op in PASS:
                st += [(a, rev) for a in x.args if isinstance(a, T)]
            elif x.op in ("concat", "diff"):
                fs.append((x, rev))
        sh = []
        for x, rev in fs:
            if x.op != "concat" or x.args[0].op != "tup" or len(x.args[0].args) != 2:
                continue
            a, b = x.args[0].args
            if b.op == "idx" and a.op != "idx":
                s, one = slices(b), "up"
            elif a.op == "idx" and b.op != "idx":
                s, one = slices(a), "down"
            else:
                continue
            s = s[-1] if s else None
            if not is_slice(s) or len(s.args) < 2:
                continue
            lo, hi = cval(s.args[0]), cval(s.args[1])
            ok = (lo in (None, 0) and hi == -1) if one == "up" else (lo == 1 and hi is None)
            if not ok:
                continue
            inner = self(b if one == "up" else a)[0]
            if inner == "rev":
                one = "down" if one == "up" else "up"
            sh.append(one)
            if one != me:
                self.problems.append(("shift", x))
        if sh:
            for x, rev in fs:
                if x.op == "diff":
                    k = kwargs(x)
                    inner = self(x)[0]
                    w = "up" if "prepend" in k else "down" if "append" in k else None
                    if w and inner == "rev":
                        w = "down" if w == "up" else "up"
                    if w and w != me:
                        self.problems.append(("thickness", x))
