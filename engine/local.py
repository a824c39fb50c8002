"""Index pushdown: which elements of the leaves one element of an array depends on.

acc(t, ix) pushes a symbolic element position ix = (subcolumn S, time T, level H) of term t down to the leaves and
records, per leaf axis, the index it is read at: the element's own index, a shifted / fixed / whole-axis index, or '?'
when the path crosses something the rules do not follow."""
from . import terms as tm
from .terms import mk, T

S, TT, H = mk("pt", "S"), mk("pt", "T"), mk("pt", "H")
ALL, COL, UNK = mk("pt", "*"), mk("pt", "col"), mk("pt", "?")
FULL = {1: (H,), 2: (TT, H), 3: (S, TT, H)}
LEAF = {"in", "stale"}

ELEM = {"add", "mul", "pow", "where", "lt", "le", "eq", "ne", "and", "or", "not", "isnan", "exp", "log", "log10", "sqrt",
        "abs", "sin", "cos", "tan", "tanh", "arctan", "floor", "ceil", "astype", "round", "max2", "min2", "to", "mag",
        "sign", "square", "gamma", "isfinite", "isinf", "real", "imag", "mod", "floordiv", "isin", "xor",
        "ext:scipy.special.gamma", "m:Quantity", "nan_to_num", "int", "float", "values", "np:polyval", "fillna", "neg"}
RED = {"sum", "mean", "max", "min", "all", "any", "nansum", "nanmean", "nanmax", "nanmin", "argmax", "argmin", "median",
       "std", "var", "prod", "nanstd", "nanmedian", "trapz", "np:trapz", "len", "count_nonzero"}
CUM = {"cumsum", "nancumsum", "cumprod"}
ROLL = {"roll", "np:roll"}
SHAPEOPS = {"dim", "range", "arange", "fill", "unit", "attr", "kw", "dom", "slice", "extm", "ext", "par", "opt", "c",
            "lut", "rand", "nan", "inf", "none", "gix", "linspace"}
ELEM_SKIP = {"astype": 1, "round": 1, "to": 1}


def kws(t):
    return {a.args[0]: a.args[1] for a in t.args if isinstance(a, T) and a.op == "kw" and len(a.args) == 2}


def axis(t, pos):
    """axis argument: int, None (all), or '?'"""
    k = kws(t)
    a = k.get("axis")
    if a is None:
        pa = [x for x in t.args if not (isinstance(x, T) and x.op == "kw")]
        a = pa[pos] if len(pa) > pos else None
    if a is None or a is tm.NONE:
        return None
    if isinstance(a, int):
        return a
    if isinstance(a, T) and a.op == "c" and isinstance(a.args[0], int):
        return a.args[0]
    return "?"


def rev(x):
    if x.op == "pt" and x.args[0] == "rev":
        return x.args[1]
    return x if x in (ALL, COL, UNK) else mk("pt", "rev", x)


def shift(x, n):
    if x in (ALL, COL, UNK):
        return x
    return tm.add(x, n)


class Local:
    def __init__(self, shape):
        self.shape = shape
        self.memo = {}
        self.rmemo = {}
        self.reads = set()       # (leaf, axis label, index)
        self.busy = set()

    # ------------------------------------------------------------------ ranks
    def rank(self, t):
        if not isinstance(t, T):
            return 0
        r = self.rmemo.get(t, -1)
        if r == -1:
            self.rmemo[t] = None
            r = self.rmemo[t] = self._rank(t)
        return r

    def _rank(self, t):
        op = t.op
        if op == "pt" or op in ("bv", "c", "par", "opt", "nan", "inf", "gix"):
            return 0
        if op == "stack" and t.args[0].op == "tup" and t.args[0].args:
            x = t.args[0].args[0]
            r = self.rank(x.args[0] if x.op == "map" else x)
            return None if r is None else r + 1
        if op == "concat" and t.args[0].op == "tup" and t.args[0].args:
            x = t.args[0].args[0]
            r = self.rank(x.args[0] if x.op == "map" else x)
            return r
        if op == "loop":
            hd = t.args[1]
            for i in range(2, len(t.args), 3):
                if t.args[i] is hd:
                    return self.rank(t.args[i + 1])
            return None
        if op == "tile":
            reps = self.reps(t)
            r = self.rank(t.args[0])
            if reps is None or r is None:
                s = self.shape(t)
                return None if s is None else len(s)
            return max(len(reps), r)
        if op == "idx":
            if t.args[0].op == "np:meshgrid":
                return 2
            if t.args[0].op == "tup":
                k = t.args[1]
                if tm.isnum(k) and isinstance(k.args[0], int) and -len(t.args[0].args) <= k.args[0] < len(
                        t.args[0].args):
                    return self.rank(t.args[0].args[k.args[0]])
                rs = {self.rank(a) for a in t.args[0].args}
                return rs.pop() if len(rs) == 1 else None
            r = self.rank(t.args[0])
            if r is None:
                return None
            return self.idx_rank(r, t.args[1])
        if op == "store":
            return self.rank(t.args[0])
        if op == "phi":
            a, b = self.rank(t.args[1]), self.rank(t.args[2])
            return b if a is None else a
        if op in RED:
            r = self.rank(t.args[0])
            a = axis(t, 2 if "trapz" in op else 1)
            if a is None and "trapz" not in op:
                return 0
            if a == "?" or r is None:
                return None
            return max(r - 1, 0)
        if op in ELEM or op in ("call", "interp", "np:interp"):
            rs = []
            args = t.args
            if op in ("interp", "np:interp"):
                args = args[:1]
            if op == "call":
                args = t.args[1].args if len(t.args) > 1 and t.args[1].op == "tup" else t.args[1:2]
            if op == "np:polyval":
                args = args[1:2]
            for i, a in enumerate(args):
                if not isinstance(a, T) or a.op in ("kw", "ext", "extm", "ext:pint.UnitRegistry", "unit", "attr"):
                    continue
                if i and op in ELEM_SKIP:
                    continue
                if a.op == "tup" and op == "isin":
                    continue
                r = self.rank(a)
                if r is None:
                    return None
                rs.append(r)
            return max(rs) if rs else None
        if op in CUM or op in ROLL or op in ("flip", "diff", "T", "swapaxes", "squeeze", "to_xarray", "transpose", "abs",
                                             "np:flip"):
            return self.rank(t.args[0])
        s = self.shape(t)
        return None if s is None else len(s)

    def idx_rank(self, r, k):
        ks = list(k.args) if k.op == "tup" else [k]
        n = 0
        used = 0
        adv = 0
        for x in ks:
            if x is tm.NONE:
                n += 1
            elif x.op == "c" and x.args[0] is Ellipsis:
                m = r - sum(1 for y in ks if not (y is tm.NONE or y is x))
                n += m
                used += m
            elif x.op == "slice":
                n += 1
                used += 1
            else:
                xr = self.rank(x)
                if xr is None:
                    return None
                if tm.isbool(x):
                    return None
                adv = max(adv, xr)
                used += 1
        if used > r:
            return None
        return n + adv + (r - used)

    def reps(self, t):
        a = t.args[1]
        if a.op == "dim" and len(a.args) == 2 and a.args[1] == "reps":
            a = a.args[0]
        return list(a.args) if isinstance(a, T) and a.op == "tup" else None

    # --------------------------------------------------------------- pushdown
    def acc(self, t, ix, cond=False):
        """records the reads of t[ix]; cond: the value only steers control flow"""
        if not isinstance(t, T) or t.op in SHAPEOPS:
            return
        key = (t, ix, cond)
        if key in self.memo:
            return
        self.memo[key] = True
        if not self.data(t):
            return
        if ix is not None:
            r = self.rank(t)
            if r is None:
                if t.op in ELEM or t.op in ("phi", "where", "call", "idx", "stack", "squeeze", "loop", "map", "store"):
                    pass
            elif len(ix) > r:
                ix = ix[len(ix) - r:]
            elif len(ix) < r:
                return self.blur(t, cond)
        m = getattr(self, "a_" + t.op.replace(":", "_").replace(".", "_"), None)
        if m is not None:
            return m(t, ix, cond)
        if t.op in LEAF:
            return self.leaf(t, ix, cond)
        if t.op in ELEM:
            return self.elem(t, t.args, ix, cond)
        if t.op in RED:
            return self.red(t, ix, cond)
        if t.op in CUM:
            return self.axisop(t, ix, 1, lambda x: COL, cond)
        if t.op in ("flip", "np:flip"):
            return self.axisop(t, ix, 1, rev, cond)
        if t.op == "diff":
            pa = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
            return self.axisop(t, ix, 1, lambda x: x if x in (ALL, UNK) else COL, cond)
        if t.op in ROLL:
            n = t.args[1]
            return self.axisop(t, ix, 2, lambda x: shift(x, tm.mul(tm.c(-1), n)), cond)
        return self.blur(t, cond)

    def data(self, t):
        return any(d.op in LEAF for d in tm.deps(t)) or tm.contains(t, lambda x: x.op == "bmu")

    def blur(self, t, cond):
        """the rules do not follow this operator: its operands are read at unknown positions unless indexed inside"""
        if t.op in LEAF:
            return self.leaf(t, None, cond)
        for a in t.args:
            if isinstance(a, T):
                r = self.rank(a)
                self.acc(a, (UNK,) * r if r is not None else None, cond)

    def sub(self, ix, r):
        if ix is None:
            return None
        return ix[len(ix) - r:] if len(ix) >= r else None

    def elem(self, t, args, ix, cond):
        for i, a in enumerate(args):
            if not isinstance(a, T) or i and t.op in ELEM_SKIP:
                continue
            if a.op == "tup":
                for b in a.args:
                    self.acc(b, (ALL,) * (self.rank(b) or 0), cond)
                continue
            r = self.rank(a)
            self.acc(a, self.sub(ix, r) if r is not None else None if ix is None else ix, cond)

    def leaf(self, t, ix, cond):
        s = self.shape(t)
        r = len(s) if s is not None else None
        labels = {2: "TH", 3: "STH"}.get(r)
        if labels is None:
            return
        if ix is None or len(ix) != r:
            ix = (UNK,) * r
        for l, x in zip(labels, ix):
            self.reads.add((t, l, x, cond))

    def a_in(self, t, ix, cond):
        self.leaf(t, ix, cond)
    a_stale = a_in

    def a_pt(self, t, ix, cond):
        pass

    def red(self, t, ix, cond):
        x = t.args[0]
        if x.op == "map" or x.op == "tup":
            return self.blur_all(x, cond)
        a = axis(t, 2 if "trapz" in t.op else 1)
        r = self.rank(x)
        if "trapz" in t.op and a is None:
            a = -1
        if a is None:
            for y in t.args:
                if isinstance(y, T) and y.op != "kw":
                    ry = self.rank(y)
                    self.acc(y, (ALL,) * ry if ry is not None else None, cond)
            return
        if a == "?" or r is None or ix is None or len(ix) != r - 1:
            return self.blur(t, cond)
        a %= r
        self.acc(x, ix[:a] + (ALL,) + ix[a:], cond)
        if "trapz" in t.op and len(t.args) > 1:
            ry = self.rank(t.args[1])
            self.acc(t.args[1], (ALL,) * ry if ry is not None else None, cond)

    def blur_all(self, x, cond):
        """every element of a list"""
        if x.op == "map":
            b = tm.subst(x.args[0], {x.args[2]: ALL}) if len(x.args) > 2 else x.args[0]
            self.acc(b, (ALL,) * (self.rank(b) or 0), cond)
        else:
            for b in x.args:
                if b.op in ("map", "tup"):
                    self.blur_all(b, cond)
                else:
                    self.acc(b, (ALL,) * (self.rank(b) or 0), cond)

    def axisop(self, t, ix, pos, f, cond):
        a = axis(t, pos)
        x = t.args[0]
        r = self.rank(x)
        if a is None and r == 1:
            a = 0
        if a is None and t.op == "diff":
            a = -1
        if a in (None, "?") or r is None or ix is None or len(ix) != r:
            return self.blur(t, cond)
        a %= r
        self.acc(x, ix[:a] + (f(ix[a]),) + ix[a + 1:], cond)
        for k, v in kws(t).items():
            if isinstance(v, T) and k in ("append", "prepend"):
                self.blur(v, cond)

    def a_phi(self, t, ix, cond):
        c = t.args[0]
        r = self.rank(c)
        self.acc(c, () if r == 0 else None, True)
        self.acc(t.args[1], ix, cond)
        self.acc(t.args[2], ix, cond)

    def a_T(self, t, ix, cond):
        self.acc(t.args[0], None if ix is None else tuple(reversed(ix)), cond)

    def a_swapaxes(self, t, ix, cond):
        a, b = (x.args[0] if tm.isnum(x) else None for x in t.args[1:3])
        if ix is None or a is None or b is None or not -len(ix) <= a < len(ix) or not -len(ix) <= b < len(ix):
            return self.blur(t, cond)
        ix = list(ix)
        ix[a], ix[b] = ix[b], ix[a]
        self.acc(t.args[0], tuple(ix), cond)

    def a_squeeze(self, t, ix, cond):
        self.acc(t.args[0], ix, cond)

    def a_to_xarray(self, t, ix, cond):
        self.acc(t.args[0], ix, cond)

    def a_tile(self, t, ix, cond):
        x = t.args[0]
        reps = self.reps(t)
        r = self.rank(x)
        if reps is None or r is None or ix is None:
            return self.blur(t, cond)
        out = list(ix[len(ix) - r:]) if r else []
        rp = reps[len(reps) - r:] if r <= len(reps) else [tm.ONE] * (r - len(reps)) + reps
        sh = self.shape(x)
        for i in range(r):
            if rp[i] is not tm.ONE:
                one = sh is not None and sh[i] is tm.ONE
                out[i] = tm.ZERO if one else UNK
        self.acc(x, tuple(out), cond)

    def a_np_interp(self, t, ix, cond):
        self.elem(t, t.args[:1], ix, cond)
        for a in t.args[1:]:
            if isinstance(a, T) and a.op != "kw":
                r = self.rank(a)
                self.acc(a, (ALL,) * r if r is not None else None, cond)
    a_interp = a_np_interp

    def a_np_polyval(self, t, ix, cond):
        self.elem(t, t.args[1:2], ix, cond)

    def a_call(self, t, ix, cond):
        self.acc(t.args[0], None, cond)
        for a in t.args[1:]:
            if not isinstance(a, T) or a.op == "kw":
                continue
            self.elem(t, a.args if a.op == "tup" else (a,), ix, cond)

    def a_stack(self, t, ix, cond):
        ax = t.args[1] if len(t.args) > 1 else tm.ZERO
        l = t.args[0]
        if l.op != "tup" or not tm.isnum(ax) or ix is None:
            return self.blur(t, cond)
        a = ax.args[0]
        r = len(ix)
        if not -r <= a < r:
            return self.blur(t, cond)
        a %= r
        k = ix[a]
        rest = ix[:a] + ix[a + 1:]
        pos = 0
        one = len(l.args) == 1
        for e in l.args:
            if e.op == "map":
                b = e.args[0]
                if len(e.args) > 2:
                    kk = k if one else UNK
                    b = tm.subst(b, {e.args[2]: self.at_dom(kk, e.args[1])})
                self.acc(b, rest, cond)
                pos = None
            else:
                if pos is not None and tm.isnum(k) and k.args[0] >= 0:
                    if k.args[0] == pos:
                        self.acc(e, rest, cond)
                    pos += 1
                    continue
                self.acc(e, rest, cond)
                if pos is not None:
                    pos += 1

    def at_dom(self, k, dom):
        """loop variable of the k-th element"""
        d = dom.args[0] if dom.op == "dom" and dom.args else dom
        if d.op in ("range", "arange") and len(d.args) == 3:
            a, st = d.args[0], d.args[2]
            if st is tm.ONE:
                return k if a is tm.ZERO else shift(k, a)
            return UNK
        return k

    def a_concat(self, t, ix, cond):
        l = t.args[0]
        ax = t.args[1] if len(t.args) > 1 else tm.ZERO
        if l.op != "tup" or not tm.isnum(ax) or ix is None:
            return self.blur(t, cond)
        a = ax.args[0] % len(ix)
        off = tm.ZERO
        for e in l.args:
            if e.op in ("map", "star") or not isinstance(e, T):
                self.blur(e, cond)
                off = None
                continue
            k = ix[a]
            if off is None:
                k = UNK
            elif off is not tm.ZERO:
                k = shift(k, tm.mul(tm.c(-1), off))
            self.acc(e, ix[:a] + (k,) + ix[a + 1:], cond)
            s = self.shape(e)
            off = None if off is None or s is None or len(s) <= a else tm.add(off, s[a])

    def a_tup(self, t, ix, cond):
        for b in t.args:
            self.acc(b, (ALL,) * (self.rank(b) or 0), cond)

    def a_idx(self, t, ix, cond):
        x, k = t.args
        if x.op == "np:meshgrid":
            kk = k.args[0] if tm.isnum(k) else None
            args = [a for a in x.args if isinstance(a, T) and a.op != "kw"]
            if ix is None or len(args) != 2 or kk not in (0, 1) or len(ix) != 2 or kws(x):
                return self.blur(x, cond)
            return self.acc(args[kk], (ix[1] if kk == 0 else ix[0],), cond)
        if x.op == "tup":
            if tm.isnum(k) and isinstance(k.args[0], int) and -len(x.args) <= k.args[0] < len(x.args):
                return self.acc(x.args[k.args[0]], ix, cond)
            for a in x.args:
                self.acc(a, ix, cond)
            self.acc(k, (), cond)
            return
        if x.op == "nonzero":
            return self.acc(x.args[0], (ALL,) * (self.rank(x.args[0]) or 0), cond)
        if tm.isnum(k) and isinstance(k.args[0], str) or k.op == "c" and isinstance(k.args[0], str):
            return self.acc(x, ix, cond)
        r = self.rank(x)
        if r is None or ix is None:
            self.key_reads(k, cond)
            return self.blur(x, cond)
        out = []
        i = 0
        ks = list(k.args) if k.op == "tup" else [k]
        nreal = sum(1 for y in ks if not (y is tm.NONE or (y.op == "c" and y.args[0] is Ellipsis)))
        adv = None
        for y in ks:
            if y is tm.NONE:
                i += 1
            elif y.op == "c" and y.args[0] is Ellipsis:
                m = r - nreal
                out += ix[i:i + m]
                i += m
            elif y.op == "slice":
                if i >= len(ix):
                    return self.blur(x, cond)
                out.append(self.slice_at(y, ix[i]))
                i += 1
            else:
                yr = self.rank(y)
                if yr == 0:
                    if self.data(y):
                        self.acc(y, (), cond)
                        out.append(UNK)
                    else:
                        out.append(y)
                elif yr is None or tm.isbool(y) or adv is not None and adv != yr:
                    self.key_reads(y, cond)
                    out.append(UNK)
                    if yr and adv is None:
                        i += yr
                        adv = yr
                else:
                    self.acc(y, tuple(ix[i:i + yr]), cond)
                    out.append(UNK)
                    if adv is None:
                        i += yr
                        adv = yr
        out += ix[i:]
        if len(out) != r:
            return self.blur(x, cond)
        self.acc(x, tuple(out), cond)

    def key_reads(self, k, cond):
        for y in (k.args if k.op == "tup" else (k,)):
            if isinstance(y, T) and y.op not in ("slice", "none", "c"):
                r = self.rank(y)
                self.acc(y, (UNK,) * r if r is not None else None, cond)

    def slice_at(self, y, k):
        a, b, st = y.args
        if st is not tm.NONE and st is not tm.ONE:
            if st is tm.c(-1) and a is tm.NONE and b is tm.NONE:
                return rev(k)
            return UNK
        if a is tm.NONE or a is tm.ZERO:
            return k
        if a.op == "c" and isinstance(a.args[0], int) and a.args[0] < 0:
            return UNK
        return shift(k, a)

    # stores and loops -------------------------------------------------------
    def a_store(self, t, ix, cond):
        base, key, val = t.args[:3]
        self.acc(base, ix, cond)
        if ix is None:
            self.key_reads(key, cond)
            return self.blur(val, cond)
        if key.op == "c" and isinstance(key.args[0], str):
            return self.acc(val, self.sub(ix, self.rank(val) or 0), cond)
        ks = list(key.args) if key.op == "tup" else [key]
        if len(ks) == 1 and (tm.isbool(ks[0]) or (self.rank(ks[0]) or 0) == len(ix)):
            self.acc(ks[0], ix, cond)
            r = self.rank(val)
            if r == 0:
                self.acc(val, (), cond)
            elif r == len(ix):
                self.acc(val, ix, cond)
            else:
                self.blur(val, cond)
            return
        rest = []
        for p, y in enumerate(ks):
            k = ix[p] if p < len(ix) else UNK
            if y is tm.NONE:
                rest.append(UNK)
            elif y.op == "slice":
                a = y.args[0]
                for z in y.args[:2]:
                    if isinstance(z, T) and self.data(z):
                        self.acc(z, (), cond)
                        a = None if z is a else a
                if y.args[2] is not tm.NONE and y.args[2] is not tm.ONE:
                    rest.append(UNK)
                elif a is None:
                    rest.append(UNK)
                elif a is tm.NONE or a is tm.ZERO:
                    rest.append(k)
                else:
                    rest.append(shift(k, tm.mul(tm.c(-1), a)))
            elif self.rank(y) == 0:
                if self.data(y):
                    self.acc(y, (), cond)
            elif y.op == "idx" and y.args[0].op == "nonzero" and self.rank(y.args[0].args[0]) == 1:
                self.acc(y.args[0].args[0], (k,), cond)
                rest.append(UNK)
            else:
                self.key_reads(y, cond)
                rest.append(UNK)
        rest += ix[len(ks):]
        r = self.rank(val)
        if r is None:
            return self.blur(val, cond)
        self.acc(val, tuple(rest[len(rest) - r:]) if r <= len(rest) else None, cond)

    def loop_var(self, post, sym, bvs, ix, lp):
        """{bv: index} of the iteration that writes element ix of sym"""
        out = {}
        stack = [post]
        seen = set()
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "store":
                ks = list(x.args[1].args) if x.args[1].op == "tup" else [x.args[1]]
                for p, y in enumerate(ks):
                    if ix is None or p >= len(ix) or not isinstance(y, T):
                        continue
                    for b in bvs:
                        v = self.solve(y, b, ix[p])
                        if v is not None and out.setdefault(b, v) is not v:
                            out[b] = UNK
                stack.append(x.args[0])
            elif x.op == "phi":
                stack += [x.args[1], x.args[2]]
            elif x.op == "loop":
                for i in range(2, len(x.args), 3):
                    stack += [x.args[i + 2]]
        return out

    def solve(self, y, b, v):
        """b such that y(b) == v, for y = const +- b"""
        if y is b:
            return v
        if v in (ALL, COL, UNK):
            return v if tm.contains(y, lambda z: z is b) else None
        if y.op == "add":
            has = [z for z in y.args if tm.contains(z, lambda q: q is b)]
            if len(has) != 1:
                return None
            rest = [z for z in y.args if z is not has[0]]
            a = tm.add(*rest) if rest else tm.ZERO
            if has[0] is b:
                return tm.add(v, tm.mul(tm.c(-1), a))
            if has[0] is tm.mul(tm.c(-1), b):
                return tm.add(a, tm.mul(tm.c(-1), v))
        if y is tm.mul(tm.c(-1), b):
            return tm.mul(tm.c(-1), v)
        return None

    def a_loop(self, t, ix, cond):
        lp = t
        hd = t.args[1]
        self.acc(t.args[0], None, True)
        trip = {t.args[i]: (t.args[i + 1], t.args[i + 2]) for i in range(2, len(t.args), 3)}
        if hd not in trip:
            return self.blur(t, cond)
        init, post = trip[hd]
        self.acc(init, ix, cond)
        self.loop_read(trip, hd, ix, cond, lp)

    def loop_read(self, trip, sym, ix, cond, lp, depth=0):
        """element ix of a carried value, as left by the iteration that wrote it"""
        key = (lp, sym, ix, cond)
        if key in self.busy:
            return
        self.busy.add(key)
        init, post = trip[sym]
        bvs = self.own_bvs(trip)
        sol = self.loop_var(post, sym, bvs, ix, lp)
        sub = {b: sol.get(b, ALL) for b in bvs}
        # carried values read inside the body become marked reads
        marks = {s_: mk("carry", id(lp) & 0xffff, s_) for s_ in trip}
        body = tm.subst(post, dict(sub))
        self.carry_ctx = getattr(self, "carry_ctx", {})
        for s_ in trip:
            self.carry_ctx[s_] = (trip, lp)
        self.acc(body, ix, cond)

    def own_bvs(self, trip):
        """the loop's own counters: the innermost-bound bv free in the bodies"""
        inner, free = set(), set()
        for i, p in trip.values():
            for x in tm.nodes([p]):
                if x.op == "map" and len(x.args) > 2:
                    inner.add(x.args[2])
                elif x.op == "bv":
                    free.add(x)
        return free - inner

    def a_bmu(self, t, ix, cond):
        ctx = getattr(self, "carry_ctx", {}).get(t)
        if ctx is None:
            return
        trip, lp = ctx
        init, post = trip[t]
        if (lp, t, ix, cond) in self.busy:
            return
        self.acc(init, ix, cond)
        self.loop_read(trip, t, ix, cond, lp)

    def a_map(self, t, ix, cond):
        b = t.args[0]
        if len(t.args) > 2:
            b = tm.subst(b, {t.args[2]: UNK if ix is None or not ix else ix[0]})
        self.acc(b, ix[1:] if ix else None, cond)


def reads(t, shape, rank=3):
    q = Local(shape)
    q.acc(t, FULL[rank])
    return q.reads
