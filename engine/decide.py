"""Decision tables of integer-coded fields: which code is chosen in which state of the signals it rests on.

A field is folded pointwise.  Comparisons of non-constant quantities are atoms, whose outcomes the state gives.  A neighbour (diff along an axis) is the same field at a shifted position: its atoms are separate ones."""
from . import terms as tm
from .terms import T, mk
from .orient import cval, kwargs, FLIP


class Free(Exception):
    """a comparison whose outcome the state does not settle"""


class Res:
    """value that is not a constant: the residual term at a shifted position"""
    __slots__ = ("t", "sh")

    def __init__(self, t, sh):
        self.t, self.sh = t, sh


NANV = float("nan")
SHAPE_ONLY = {"tile", "broadcast", "astype", "mag", "values", "np:asarray", "copy"}
UNARY = {"log10", "log", "exp", "sqrt", "abs"}


def num(x):
    return isinstance(x, (int, float, bool))


class Eval:
    """value of a term in one state; settle(atom, shift) gives the outcome of a comparison (None: not settled),
    known(term, shift) the number a term has in this state (None: not known)"""

    def __init__(self, settle, known=None):
        self.settle = settle
        self.known = known or (lambda t, sh: None)

    def __call__(self, t):
        return self.ev(t, None, 0, {})

    def atom(self, asg, t, sh):
        r = self.settle(t, sh)
        if r is None:
            raise Free(t, sh)
        return r

    def ev(self, t, asg, sh, memo):
        k = (t.id, sh)
        if k in memo:
            return memo[k]
        r = self.go(t, asg, sh, memo)
        memo[k] = r
        return r

    def truth(self, t, asg, sh, memo):
        v = self.ev(t, asg, sh, memo)
        if num(v):
            return v != v or bool(v)
        return self.atom(asg, v.t, v.sh)

    def go(self, t, asg, sh, memo):
        op = t.op
        v = self.known(t, sh)
        if v is not None:
            return v
        if op == "c":
            v = t.args[0]
            return v if num(v) else Res(t, sh)
        if op == "nan":
            return NANV
        if op == "fill":
            return self.ev(t.args[0], asg, sh, memo)
        if op in SHAPE_ONLY:
            v = self.ev(t.args[0], asg, sh, memo)
            return v if num(v) else Res(mk(op, v.t, *t.args[1:]) if v.sh == sh else t, v.sh)
        if op in UNARY:
            v = self.ev(t.args[0], asg, sh, memo)
            if num(v):
                return v if v != v else Res(t, sh)
            return Res(mk(op, v.t), sh) if v.sh == sh else Res(t, sh)
        if op in ("where", "phi") and len(t.args) >= 3:
            try:
                b = self.truth(t.args[0], asg, sh, memo)
            except Free:
                return Res(t, sh)
            return self.ev(t.args[1 if b else 2], asg, sh, memo)
        if op == "and":
            for x in t.args:
                if not self.truth(x, asg, sh, memo):
                    return False
            return True
        if op == "or":
            for x in t.args:
                if self.truth(x, asg, sh, memo):
                    return True
            return False
        if op == "not":
            return not self.truth(t.args[0], asg, sh, memo)
        if op in ("lt", "le", "eq"):
            a = self.ev(t.args[0], asg, sh, memo)
            b = self.ev(t.args[1], asg, sh, memo)
            if num(a) and num(b):
                return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
            if num(a) and a != a or num(b) and b != b:
                return False
            return self.atom(asg, mk(op, self.back(a), self.back(b)), sh if num(a) and num(b) else
                             (a.sh if not num(a) else b.sh))
        if op in ("isnan", "isfinite", "isinf"):
            v = self.ev(t.args[0], asg, sh, memo)
            if num(v):
                inf = v in (float("inf"), float("-inf"))
                return {"isnan": v != v, "isinf": inf, "isfinite": v == v and not inf}[op]
            return self.atom(asg, mk(op, v.t), v.sh)
        if op in ("add", "mul"):
            vs = [self.ev(x, asg, sh, memo) for x in t.args]
            if all(num(v) for v in vs):
                r = 0 if op == "add" else 1
                for v in vs:
                    r = r + v if op == "add" else r * v
                return r
            if op == "mul" and any(num(v) and v == 0 for v in vs):
                return 0
            if all(num(v) or v.sh == sh for v in vs):
                return Res(mk(op, *[self.back(v) for v in vs]) if any(num(v) for v in vs) else t, sh)
            return Res(t, sh)
        if op == "diff":
            x = t.args[0]
            kw = kwargs(t)
            return self.difference(t, x, kw, asg, sh, memo, 1)
        if op in FLIP:
            x = t.args[0]
            if x.op == "diff":
                y = x.args[0]
                if y.op in FLIP and y.args[1:] == t.args[1:]:
                    return self.difference(t, y.args[0], kwargs(x), asg, sh, memo, -1)
            if x.op in FLIP and x.args[1:] == t.args[1:]:
                return self.ev(x.args[0], asg, sh, memo)
            return Res(t, sh)
        return Res(t, sh)

    def difference(self, t, x, kw, asg, sh, memo, way):
        if "append" in kw:
            other, lo = sh + way, False
        elif "prepend" in kw:
            other, lo = sh - way, True
        else:
            return Res(t, sh)
        edge = self.atom(asg, mk("edge", 1 if other > sh else -1), sh)
        here = self.ev(x, asg, sh, memo)
        if edge:
            there = self.ev(kw["prepend" if lo else "append"], asg, sh, memo)
        else:
            there = self.ev(x, asg, other, memo)
        if num(here) and num(there):
            return here - there if lo else there - here
        return Res(t, sh)

    def back(self, v):
        if num(v):
            return tm.c(v)
        return v.t


def polarity(t, hit):
    """+1/-1: t grows/falls with the leaves for which hit(leaf) holds; 0 independent of them; None unknown"""
    if not any(hit(x) for x in tm.nodes([t])):
        return 0
    if hit(t):
        return 1
    op = t.op
    if op in SHAPE_ONLY or op in ("log10", "log", "exp", "sqrt", "to", "fillna", "tup") or op in FLIP:
        return polarity(t.args[0], hit)
    if op in ("where", "phi"):
        a, b = polarity(t.args[1], hit), polarity(t.args[2], hit)
        return a if a == b or b == 0 else b if a == 0 else None
    if op == "pow" and t.args[0].op == "c" and num(t.args[0].args[0]) and t.args[0].args[0] > 1:
        return polarity(t.args[1], hit)
    if op == "add":
        ps = {polarity(x, hit) for x in t.args} - {0}
        return ps.pop() if len(ps) == 1 else None
    if op == "mul":
        ps = [(x, polarity(x, hit)) for x in t.args]
        dep = [p for x, p in ps if p != 0]
        if len(dep) != 1 or dep[0] is None:
            return None
        sg = 1
        for x, p in ps:
            if p == 0:
                if x.op == "c" and num(x.args[0]):
                    sg *= 1 if x.args[0] > 0 else -1
                elif x.op not in ("extm", "ext", "par", "opt", "mag", "pow"):
                    return None
        return dep[0] * sg
    return None
