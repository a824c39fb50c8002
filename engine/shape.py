"""Symbolic array shapes: a tuple of dimension-size terms, or None when not known."""
from . import terms as tm
from .terms import mk, T

ELEM = {"add", "mul", "pow", "where", "lt", "le", "eq", "ne", "and", "or", "not", "isnan", "exp", "log", "log10",
        "sqrt", "abs", "sin", "cos", "tan", "tanh", "arctan", "arccos", "arcsin", "floor", "ceil", "astype", "round",
        "max2", "min2", "flip", "cumsum", "nancumsum", "to", "mag", "unit", "cumprod", "sign", "square", "gamma",
        "isfinite", "isinf", "real", "imag", "mod", "floordiv", "isin", "xor"}
REDUCE = {"sum", "mean", "max", "min", "all", "any", "nansum", "nanmean", "nanmax", "nanmin", "argmax", "argmin",
          "median", "std", "var", "prod", "nanstd", "nanmedian"}


class Shapes:
    def shape(self, t):
        memo = self.shape_memo
        r = memo.get(t, 0)
        if r == 0:
            memo[t] = None
            r = self._shape(t)
            memo[t] = r
        return r

    def leaf_shape(self, t):
        return None

    def bcast(self, ss):
        n = max(len(s) for s in ss)
        out = [tm.ONE] * n
        for s in ss:
            for i, d in enumerate(s):
                j = n - len(s) + i
                if d is tm.ONE:
                    continue
                if out[j] is tm.ONE or out[j] is d:
                    out[j] = d
                else:
                    return None
        return tuple(out)

    def _shape(self, t):
        op = t.op
        if op in ("c", "par", "opt", "gix", "dim", "nan", "inf"):
            return ()
        if op in ("in", "lut", "stale", "attr", "unk", "rand"):
            return self.leaf_shape(t)
        if op == "fill":
            s = t.args[1] if len(t.args) > 1 else None
            if s is None:
                return None
            if s.op == "tup":
                if any(x.op in ("map", "opt_item", "star") for x in s.args):
                    return None
                return tuple(s.args)
            if s.op == "dim" and len(s.args) == 2 and s.args[1] == "shape" and isinstance(s.args[0], T):
                return self.shape(s.args[0])
            if s.op in ("c", "dim"):
                return (s,)
            return None
        if op in ELEM:
            ss = []
            for a in t.args:
                if isinstance(a, T):
                    if op in ("flip", "cumsum", "nancumsum", "astype", "round", "cumprod", "to", "unit") and a is not \
                            t.args[0]:
                        continue
                    s = self.shape(a)
                    if s is None:
                        return None
                    ss.append(s)
            return self.bcast(ss) if ss else None
        if op in ("max", "min") and not (len(t.args) == 2 and t.args[1].op in ("none",) or len(t.args) == 2 and
                                         t.args[1].op == "c"):
            ss = [self.shape(a) for a in t.args if isinstance(a, T)]
            return None if any(s is None for s in ss) or not ss else self.bcast(ss)
        if op == "phi":
            a, b = self.shape(t.args[1]), self.shape(t.args[2])
            if a is not None and b is not None:
                return a if a == b else None
            return None if getattr(self, "layout", None) is not None else a if b is None else b
        if op == "store":
            return self.shape(t.args[0])
        if op == "idx":
            s = self.shape(t.args[0])
            return None if s is None else self.idx_shape(s, t.args[1])
        if op in REDUCE:
            s = self.shape(t.args[0])
            if s is None or len(t.args) < 2:
                return None
            ax = t.args[1]
            if ax is tm.NONE:
                return ()
            if tm.isnum(ax) and isinstance(ax.args[0], int) and -len(s) <= ax.args[0] < len(s):
                i = ax.args[0] % len(s)
                return s[:i] + s[i + 1:]
            return None
        if op == "T":
            s = self.shape(t.args[0])
            return None if s is None else tuple(reversed(s))
        if op == "swapaxes":
            s = self.shape(t.args[0])
            a, b = t.args[1], t.args[2]
            if s is None or not (tm.isnum(a) and tm.isnum(b)):
                return None
            s = list(s)
            try:
                i, j = a.args[0], b.args[0]
                s[i], s[j] = s[j], s[i]
            except IndexError:
                return None
            return tuple(s)
        if op == "transpose" and len(t.args) == 2 and t.args[1].op == "tup":
            s = self.shape(t.args[0])
            if s is None or not all(tm.isnum(x) for x in t.args[1].args) or len(s) != len(t.args[1].args):
                return None
            return tuple(s[x.args[0]] for x in t.args[1].args)
        if op in ("arange", "range"):
            if len(t.args) == 3 and t.args[0] is tm.ZERO and t.args[2] is tm.ONE:
                return (t.args[1],)
            return None
        if op == "stack" and t.args[0].op == "tup":
            els = t.args[0].args
            ss = [self.shape(x) for x in els if x.op not in ("map", "opt_item")]
            if not ss or any(s is None or s != ss[0] for s in ss) or len(ss) != len(els):
                return None
            ax = t.args[1]
            if tm.isnum(ax) and isinstance(ax.args[0], int):
                i = ax.args[0] if ax.args[0] >= 0 else ax.args[0] + len(ss[0]) + 1
                return ss[0][:i] + (tm.c(len(els)),) + ss[0][i:]
            return None
        if op == "loop":
            i = t.args[3] if len(t.args) > 3 else t.args[1]
            return self.shape(i) if isinstance(i, T) else None
        if op in ("interp", "np:interp", "roll", "np:roll"):
            return self.shape(t.args[0])
        return None

    def idx_shape(self, s, k):
        ks = list(k.args) if k.op == "tup" else [k]
        out = []
        nreal = sum(1 for x in ks if not (x is tm.NONE or (x.op == "c" and x.args[0] is Ellipsis)))
        i = 0
        arr = None
        for x in ks:
            if x is tm.NONE:
                out.append(tm.ONE)
            elif x.op == "c" and x.args[0] is Ellipsis:
                m = len(s) - nreal
                out += s[i:i + m]
                i += m
            elif x.op == "slice":
                if i >= len(s):
                    return None
                if tm.isfull(x) or (x.args[0] is tm.NONE and x.args[1] is tm.NONE and x.args[2] is tm.c(-1)):
                    out.append(s[i])
                else:
                    out.append(mk("dim", "slice", s[i], x))
                i += 1
            elif x.op == "c" and isinstance(x.args[0], int):
                i += 1
            else:
                if self.is_bool_term(x):
                    return None
                xs = self.shape(x)
                if xs is None:
                    return None
                if xs == ():
                    i += 1
                else:
                    if arr is not None or len(ks) > 1:
                        return None
                    arr = xs
                    out += list(xs)
                    i += 1
        if i > len(s):
            return None
        out += s[i:]
        return tuple(out)

    def is_bool_term(self, t):
        return tm.isbool(t)
