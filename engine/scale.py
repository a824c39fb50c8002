"""Linear/decibel scale inference over value-flow terms.

values: N (constants, masks, parameters, nan), ("lin", a, tr), ("log", k, a), U (not known)
  lin: a = proportional to hydrometeor content, tr = a transmittance (exponential of a path quantity)
  log: k = factor in front of log10 (None: not constant), a = how many content-proportional quantities it is the
       logarithm of (None: not known)
"""
import math

from . import terms as tm
from .terms import T

N = ("n",)
U = ("unk",)
CONST = {"c", "nan", "inf", "par", "opt", "lut", "dim", "attr", "ext", "extm", "unit", "gix", "bv", "kw", "slice", "range",
         "dom", "arange", "tup", "lt", "le", "eq", "not", "and", "or", "isnan", "isfinite", "isinf", "all", "any", "none",
         "fillpath", "xor", "isin", "fmt", "unitsof", "str"}
FIRST = {"tile", "idx", "mag", "to", "flip", "squeeze", "T", "transpose", "astype", "ravel", "reshape", "abs", "last",
         "np:transpose", "expand_dims", "swapaxes", "map", "values", "repeat", "copy", "round", "float", "to_xarray",
         "elem", "broadcast_to", "max", "min", "nanmax", "nanmin", "moveaxis", "sortby"}
AGG = {"sum", "nansum", "mean", "nanmean", "trapz", "np:trapz", "cumsum", "nancumsum", "average", "np:average"}
JOIN = {"where", "phi", "concat", "stack", "store", "dictsel", "max2", "min2"}


class Scale:
    def __init__(self, leaf):
        """leaf(t) -> value of an input leaf"""
        self.leaf = leaf
        self.memo = {}
        self.env = {}
        self.problems = []

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        key = t.id if not self.env else (t.id, tuple(sorted((k.id, v) for k, v in self.env.items())))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.go(t)
        return r

    def bad(self, what, t):
        self.problems.append((what, t))

    def join(self, vs, t=None):
        r = N
        for v in vs:
            if v == N:
                continue
            if v == U or r == U:
                r = U
            elif r == N:
                r = v
            elif r[0] != v[0]:
                if t is not None and (r[0] == "log" and r[1] in (10, -10) or v[0] == "log" and v[1] in (10, -10)):
                    self.bad("branches", t)
                r = U
            elif r[0] == "lin":
                r = ("lin", r[1] or v[1], r[2] or v[2])
            else:
                if r[1] != v[1] and t is not None and 10 in (r[1], v[1]) and None not in (r[1], v[1]):
                    self.bad("branches", t)
                r = ("log", r[1] if r[1] == v[1] else None, r[2] if r[2] == v[2] else None)
        return r

    def go(self, t):
        op, a = t.op, t.args
        if op in CONST:
            return N
        if op == "fill":
            return self(a[0]) if isinstance(a[0], T) else N
        if op in ("in", "stale", "rand"):
            return self.leaf(t)
        if op in ("log10", "log"):
            v = self(a[0])
            if v == U:
                return U
            if v[0] == "log":
                if v[1] in (10, -10):
                    self.bad("twice", t)
                return U
            f = 1.0 if op == "log10" else 1 / math.log(10)
            return ("log", f, 1 if v != N and v[1] else 0) if v != N else N
        if op == "exp":
            v = self(a[0])
            if v == N or v == U:
                return v
            return U if v[0] == "log" else ("lin", False, True)
        if op == "pow":
            b, e = self(a[0]), self(a[1])
            base = a[0].args[0] if a[0].op == "c" else None
            if base == 10 and e[0] == "log":
                if e[1] is not None and abs(abs(e[1]) - 10) < 1e-6:
                    self.bad("not-divided", t)
                return ("lin", e[2] != 0, False)
            if base == 10 and e[0] == "lin":
                if e[1] and self.from_db(a[1]):
                    self.bad("back-twice", t)
                return ("lin", False, True)
            if base is not None:
                return N if e == N else U if e == U else ("lin", False, True) if e[0] == "lin" else U
            if b == U:
                return U
            if b[0] == "log":
                return U
            if e == U or e[0] == "log":
                return U
            if b == N:
                return N if e == N else ("lin", False, False)
            return b
        if op == "mul":
            vs = [self(x) for x in a]
            if U in vs:
                return U
            logs = [v for v in vs if v[0] == "log"]
            lins = [v for v in vs if v[0] == "lin"]
            if not logs:
                return ("lin", any(v[1] for v in lins), any(v[2] for v in lins)) if lins else N
            if len(logs) > 1:
                return U
            l = logs[0]
            k = l[1]
            for x, v in zip(a, vs):
                if v == N:
                    c = x.args[0] if x.op == "c" else None
                    if x.op in ("lt", "le", "eq", "not", "and", "or", "isnan", "isfinite"):
                        continue
                    k = k * c if k is not None and isinstance(c, (int, float)) else None
            if lins:
                if l[1] is not None and k is not None and abs(abs(k) - 10) < 1e-6 and any(v[2] or v[1] for v in lins):
                    self.bad("product", t)
                return ("log", None, None)
            if k is not None and abs(k - round(k, 9)) < 1e-9:
                k = round(k, 9)
            aa = l[2]
            if aa and k is not None and k < 0:
                aa = -aa
            elif k is None:
                aa = None if aa else aa
            return ("log", k if k is None else float(k), aa)
        if op == "add":
            vs = [self(x) for x in a]
            if U in vs:
                return U
            logs = [v for v in vs if v[0] == "log"]
            lins = [v for v in vs if v[0] == "lin"]
            if logs and lins:
                if any(v[1] is not None and abs(abs(v[1]) - 10) < 1e-6 for v in logs) and any(v[1] or v[2] for v in lins):
                    self.bad("mixed-sum", t)
                return ("log", None, None)
            if logs:
                ks = {abs(v[1]) if v[1] is not None else None for v in logs}
                aa = None if any(v[2] is None for v in logs) else sum(v[2] for v in logs)
                k = ks.pop() if len(ks) == 1 else None
                if k is not None and abs(k - 10) < 1e-6 and aa is not None and aa > 1:
                    self.bad("sum-in-dB", t)
                if len(logs) > 1 and k is None and aa == 1:
                    # range or calibration terms in dB
                    k = max((abs(v[1]) for v in logs if v[2] and v[1] is not None), default=None)
                return ("log", k, aa)
            return self.join(vs)
        if op in AGG:
            v = self(a[0]) if isinstance(a[0], T) else U
            if v[0] == "log" and v[1] is not None and abs(v[1] - 10) < 1e-6 and v[2]:
                self.bad("average-in-dB", t)
                return U
            return v
        if op in JOIN:
            xs = {"where": a[1:], "phi": a[1:], "concat": a[:1], "stack": a[:1], "store": (a[0], a[-1]),
                  "dictsel": a[1:]}.get(op, a)
            out = []
            for x in xs:
                if isinstance(x, T):
                    out += [self(y) for y in x.args if isinstance(y, T)] if x.op == "tup" else [self(x)]
            return self.join(out, t)
        if op == "diff":
            return self(a[0])
        if op == "loop":
            return self.loop(t)
        if op in FIRST:
            x = a[0]
            if isinstance(x, T):
                if x.op == "tup":
                    return self.join([self(y) for y in x.args if isinstance(y, T)])
                return self(x)
            return N
        if op in ("interp", "np:interp", "polyval", "np:polyval"):
            v = self(a[0]) if isinstance(a[0], T) else N
            return N if v == N else ("lin", False, False)
        if op == "call":
            return ("lin", False, False)
        if op.startswith("ext:") or op.startswith("m:"):
            vs = [self(x) for x in a if isinstance(x, T)]
            return N if all(v == N for v in vs) else U if any(v == U or v[0] == "log" for v in vs) else \
                ("lin", False, False)
        if op in ("real", "imag", "bmu", "sqrt"):
            return self(a[0]) if a and isinstance(a[0], T) else U
        return U

    def from_db(self, t):
        """contains a value already converted from dB"""
        return any(x.op == "pow" and x.args[0].op == "c" and x.args[0].args[0] == 10 and self(x.args[1])[0] == "log"
                   for x in tm.nodes([t]))

    def loop(self, t):
        tr = [t.args[i:i + 3] for i in range(2, len(t.args), 3)]
        old, np = dict(self.env), len(self.problems)
        cur = {x: self(i) for x, i, p in tr}
        for it in range(4):
            self.env = dict(old)
            self.env.update(cur)
            nxt = {x: self.join([cur[x], self(p)]) for x, i, p in tr}
            if nxt == cur:
                break
            cur = nxt
        self.env = old
        return cur.get(t.args[1], U)
