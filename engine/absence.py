"""Constant propagation over value-flow terms: what a term can be when some of its leaves hold a given constant
everywhere. A value is a frozenset of floats/bools (every possible element value) or TOP."""
import math

from . import terms as tm
from .terms import T

TOP = None
LIMIT = 8
ELEM = {"idx", "tile", "astype", "flip", "squeeze", "reshape", "ravel", "transpose", "np:transpose", "expand_dims",
        "swapaxes", "roll", "broadcast_to", "mag", "fillpath", "to_array", "np:flip", "repeat", "sortby", "last", "elem",
        "np:ravel", "copy", "moveaxis", "values", "rename", "round", "int", "float", "to"}
OPAQUE = {"in", "lut", "par", "opt", "rand", "attr", "gix", "bv", "dim", "stale", "dom", "range", "ext", "fmt", "unitsof", "mu", "bmu", "rng", "extm", "unit"}


class Ev:
    def __init__(self, env, unk_ok=False):
        self.env = env
        self.memo = {}
        self.unmodelled = set()
        self.steps = 0

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        k = t.id
        if k in self.memo:
            return self.memo[k]
        r = self.go(t)
        if r is not TOP and len(r) > LIMIT:
            r = TOP
        self.memo[k] = r
        return r

    def join(self, vs):
        out = set()
        for v in vs:
            if v is TOP:
                return TOP
            out |= v
        return norm(out)

    def pw(self, f, *vs):
        """pointwise on constants"""
        if any(v is TOP for v in vs):
            return TOP
        out = set()

        def rec(i, acc):
            if i == len(vs):
                try:
                    out.add(f(*acc))
                except (OverflowError, ValueError, TypeError, ZeroDivisionError):
                    out.add(math.nan)
                return
            for x in vs[i]:
                rec(i + 1, acc + [x])
        rec(0, [])
        return norm(out)

    def go(self, t):
        op, a = t.op, t.args
        if op == "c":
            v = a[0]
            if isinstance(v, bool):
                return frozenset([v])
            if isinstance(v, (int, float)):
                return norm({float(v)})
            return TOP
        if op == "nan":
            return norm({math.nan})
        if op == "dim" and isinstance(a[0], T) and self.empty(a[0]):
            return ZERO
        if op in OPAQUE:
            return TOP
        if op == "fill":
            return self(a[0]) if isinstance(a[0], T) else TOP
        if op == "add":
            v = self(a[0])
            vs = [self(x) for x in a]
            if any(x is TOP for x in vs) and any(x is not TOP and any(
                    isinstance(y, float) and math.isinf(y) for y in x) for x in vs):
                self.unmodelled.add("inf+unknown")
            for x in a[1:]:
                v = self.pw(lambda p, q: p + q, v, self(x)) if v is not TOP else TOP
                if v is TOP:
                    # nan plus anything is nan
                    break
            if v is TOP and any(self(x) == NAN for x in a):
                return NAN
            return v
        if op == "mul":
            vs = [self(x) for x in a]
            if any(v == NAN for v in vs):
                return NAN
            cs = [v for v in vs if v is not TOP]
            v = frozenset([1.0])
            for x in cs:
                v = self.pw(lambda p, q: p * q, v, x)
                if v is TOP:
                    return TOP
            if len(cs) < len(vs):
                # other factors are taken as finite
                if not v <= ZN and any(isinstance(x, float) and math.isinf(x) for x in v):
                    self.unmodelled.add("inf*unknown")
                return v if v <= ZN else TOP
            return v
        if op == "pow":
            b, e = self(a[0]), self(a[1])
            if b is not TOP and b <= ZN and e is TOP:
                return b if positive(a[1]) else TOP
            return self.pw(power, b, e)
        if op in ("lt", "le", "eq"):
            f = {"lt": lambda p, q: p < q, "le": lambda p, q: p <= q, "eq": lambda p, q: p == q}[op]
            return self.pw(f, self(a[0]), self(a[1]))
        if op == "not":
            return self.pw(lambda p: not p, self(a[0]))
        if op in ("and", "or"):
            vs = [self(x) for x in a]
            dec = frozenset([op == "or"])
            bs = [v if v is TOP else frozenset(bool(x) for x in v) for v in vs]
            if any(b == dec for b in bs):
                return dec
            if any(b is TOP for b in bs):
                return TOP
            return frozenset([True, False]) if any(len(b) > 1 for b in bs) else frozenset([op == "and"])
        if op in ("where", "phi"):
            c = self(a[0])
            if c is TOP:
                return self.join([self(a[1]), self(a[2])])
            bs = {bool(x) for x in c}
            rs = []
            if True in bs:
                rs.append(self.given(a[1], a[0], True))
            if False in bs:
                rs.append(self.given(a[2], a[0], False))
            return self.join(rs)
        if op == "isnan":
            return self.pw(lambda p: isinstance(p, float) and p != p, self(a[0]))
        if op == "isfinite":
            return self.pw(lambda p: math.isfinite(p), self(a[0]))
        if op == "isinf":
            return self.pw(lambda p: math.isinf(p), self(a[0]))
        if op in ("log10", "log"):
            return self.pw(lambda p: -math.inf if p == 0 else math.log10(p) if p > 0 else math.nan, self(a[0]))
        if op == "exp":
            return self.pw(math.exp, self(a[0]))
        if op in ("sqrt", "abs", "np:abs"):
            return self.pw(lambda p: math.sqrt(p) if op == "sqrt" else abs(p), self(a[0]))
        if op in ("trapz", "np:trapz", "sum", "cumsum", "nansum", "mean", "nanmean"):
            v = self(a[0])
            return v if v is not TOP and v <= ZN else TOP
        if op in ("any", "all"):
            v = self(a[0])
            if v is TOP:
                return TOP
            return norm({bool(x) for x in v})
        if op in ("max", "min", "nanmax", "nanmin"):
            return self.join([self(x) for x in a[:1]]) if len(a) and a[0].op == "stack" or len(a) < 3 and not all(
                isinstance(x, T) for x in a) else self.join([self(x) for x in a if isinstance(x, T)])
        if op == "store":
            if isinstance(a[1], T) and self.empty(a[1]):
                return self(a[0])
            return self.join([self(a[0]), self(a[2])])
        if op == "diff":
            v = self(a[0])
            return self.pw(lambda p, q: p - q, v, v) if v is not TOP else TOP
        if op in ("tup", "map", "stack", "concatenate", "concat"):
            if op in ("tup", "concatenate"):
                return self.join([self(x) for x in a if isinstance(x, T)]) if a else TOP
            return self(a[0])
        if op == "dictsel":
            return self.join([self(x) for x in a[1:] if isinstance(x, T)])
        if op == "loop":
            return self.loop(t)
        if op == "idx" or op in ELEM:
            return self(a[0]) if isinstance(a[0], T) else TOP
        if op in ("interp", "np:interp"):
            return TOP
        if op == "m:Quantity" and len(a) > 1 and isinstance(a[1], T):
            return self(a[1])
        if op == "unk" or op == "call":
            self.unmodelled.add(tm.show(t, 1)[:60])
            return TOP
        self.unmodelled.add(op)
        return TOP

    def empty(self, t):
        """an index or list of positions that surely selects nothing"""
        op, a = t.op, t.args
        if op in ("nonzero", "np:argwhere", "np:flatnonzero") and isinstance(a[0], T):
            v = self(a[0])
            return v is not TOP and bool(v) and all(x == 0 for x in v)
        if op == "idx":
            return any(isinstance(x, T) and self.empty(x) for x in a[:2])
        if op == "tup":
            return any(isinstance(x, T) and self.empty(x) for x in a)
        if op == "slice" and len(a) == 3:
            if a[0] is not None and not (isinstance(a[0], T) and a[0].op == "c" and a[0].args[0] in (None, 0)):
                return False
            if isinstance(a[1], T) and (a[1].op != "c" or tm.isnum(a[1])):
                v = self(a[1])
                return v == ZERO
        return False

    def given(self, t, cond, val):
        """value of a branch, using what its own condition says about it"""
        v = self(t)
        if v is TOP:
            return v
        if cond.op == "isnan" and cond.args[0] is t and not val:
            return frozenset(x for x in v if not (isinstance(x, float) and x != x)) or v
        if cond.op == "isinf" and cond.args[0] is t and not val:
            return frozenset(x for x in v if not (isinstance(x, float) and math.isinf(x))) or v
        if cond.op == "isfinite" and cond.args[0] is t and val:
            return frozenset(x for x in v if isinstance(x, bool) or math.isfinite(x)) or v
        return v

    def loop(self, t):
        """least fixpoint of the recurrence system"""
        tr = [t.args[i:i + 3] for i in range(2, len(t.args), 3)]
        cur = {x: self(i) for x, i, p in tr}
        for it in range(6):
            sub = Ev(dict(self.env, **{}) | cur)
            nxt = {}
            for x, i, p in tr:
                nxt[x] = self.join([cur[x], sub(p)])
            self.unmodelled |= sub.unmodelled
            if nxt == cur:
                break
            cur = nxt
        else:
            cur = {x: TOP for x in cur}
        return cur.get(t.args[1], TOP)


NANV = math.nan


def norm(s):
    """nan is one value"""
    return frozenset(NANV if isinstance(x, float) and x != x else x for x in s)


NAN = norm({math.nan})
ZERO = frozenset([0.0])
ZN = norm({0.0, math.nan})


def power(p, q):
    if p == 0 and q < 0:
        return math.inf
    return p ** q


def positive(t):
    """surely greater than zero"""
    op, a = t.op, t.args
    if op == "c":
        return isinstance(a[0], (int, float)) and a[0] > 0
    if op == "exp":
        return True
    if op in ("mul", "add", "where", "phi"):
        return all(positive(x) for x in (a if op in ("mul", "add") else a[1:]))
    if op == "pow":
        return positive(a[0])
    if op in ELEM or op == "idx":
        return isinstance(a[0], T) and positive(a[0])
    return False
