"""Which elements of the leaves each element of an array is computed from, over a small grid: the term is evaluated
with numbers where they are constants (sizes, counters, indices) and with sets of leaf elements everywhere else."""
from . import terms as tm
from .elem import A, Ev, INF, NANV, Unread, bcast, bshape, down, ew, indexes, lift, permute, size
from .local import axis, kws

T = tm.T


class D:
    """depends on: s - through operations that are followed exactly, m - possibly (bit sets)"""
    __slots__ = ("s", "m")

    def __init__(self, s=0, m=None):
        self.s, self.m = s, s if m is None else m

    def __eq__(self, o):
        return isinstance(o, D) and (o.s, o.m) == (self.s, self.m)

    def __hash__(self):
        return hash((self.s, self.m))


class B:
    """array of unknown shape; al: (mask, array) when it is the elements of an array that a mask selects"""
    __slots__ = ("d", "al")

    def __init__(self, d, al=None):
        self.d, self.al = d, al


def aligned(xs):
    """the mask that all the selections among xs share, and their arrays"""
    m = None
    out = []
    for x in xs:
        if isinstance(x, B):
            if x.al is None or m is not None and x.al[0] is not m:
                return None
            m = x.al[0]
            out.append(x.al[1])
        elif isinstance(x, A) and x.sh not in ((), (1,)):
            return None
        else:
            out.append(x.d[0] if isinstance(x, A) else x)
    return m, out


ZERO = D(0, 0)


def masks(v):
    return (v.s, v.m) if isinstance(v, D) else (0, 0)


def join(*vs):
    s = m = 0
    for v in vs:
        if isinstance(v, D):
            s |= v.s
            m |= v.m
    return D(s, m)


def pick(vs):
    """one of these, which one is not known"""
    s, m = -1, 0
    for v in vs:
        a, b = masks(v)
        s &= a
        m |= b
    return D(s if s != -1 else 0, m)


def merge(a, b):
    """one value or the other"""
    if not isinstance(a, D) and not isinstance(b, D):
        if a is b or type(a) == type(b) and a == b or a != a and b != b:
            return a
    return join(a, b)


ELEM1 = {"to", "mag", "m:Quantity", "astype", "round", "int", "float", "copy", "deepcopy", "to_xarray", "fillna",
         "nan_to_num", "real", "imag", "sin", "cos", "tan", "tanh", "arctan", "floor", "ceil", "sign", "square", "values",
         "array", "asarray", "ext:scipy.special.gamma", "gamma", "exp", "log", "log10", "sqrt", "abs", "isnan",
         "isfinite", "isinf", "np:exp", "np:log", "conj", "np:sinh", "np:cosh", "sinh", "cosh", "cbrt", "np:cbrt"}
ELEMN = {"lt", "le", "eq", "ne", "and", "or", "not", "xor", "add", "mul", "pow", "mod", "floordiv", "max2", "min2",
         "maximum", "minimum", "np:maximum", "np:minimum", "arctan2"}
NODEP = {"ext", "extm", "attr", "unit", "kw", "rand", "fmt", "labels", "opt"}
BITS = 12       # per leaf: 3 subcolumn, 4 time, 5 level


class Dep(Ev):
    """sizes: S, TT, H; leaf_dims(name) -> letters such as 'STH', or None; lut: length given to table axes"""

    def __init__(self, leaf_dims, dims, sizes=(2, 3, 4), lut=5):
        Ev.__init__(self, 1, {}, {}, dims)
        self.leaf_dims, self.n, self.lut = leaf_dims, dict(zip("STH", sizes)), lut
        self.ids = {}
        self.null = False       # whether a product with 0 depends on nothing
        self.control = True     # which branch is taken at a time step is data of that time step

    # -- leaves
    def bit(self, nm, l, i):
        k = self.ids.setdefault(nm, len(self.ids))
        return 1 << (BITS * k + {"S": 0, "T": 3, "H": 7}[l] + i)

    def leaf(self, nm):
        ds = self.leaf_dims(nm)
        if ds is None:
            return ZERO
        sh = [self.n[l] for l in ds]
        return down(A(sh, [D(sum(self.bit(nm, l, i) for l, i in zip(ds, ix))) for ix in indexes(sh)]))

    def __call__(self, t):
        try:
            return Ev.__call__(self, t)
        except Unread as e:
            if not str(e).startswith("op "):
                raise
            raise

    def go(self, t):
        op = t.op
        if op == "par" or op in NODEP or op.startswith("ext:") and op not in ELEM1:
            return ZERO
        if op == "lut":
            return self.lutval(t)
        if op in ELEM1:
            x = self(t.args[1] if op == "m:Quantity" and len(t.args) > 1 else t.args[0])
            return self.map1(x) if not (op in ("int", "float", "astype", "round", "copy", "array", "asarray") or
                                        op == "abs") else self.same1(op, x)
        if op in ELEMN:
            return self.elemn(op, [self(a) for a in t.args])
        try:
            return Ev.go(self, t)
        except (TypeError, AttributeError, ValueError) as e:
            raise Unread("%s: %s" % (op, e))

    def lutval(self, t):
        return A((self.lut,), [ZERO] * self.lut)

    def map1(self, x):
        if isinstance(x, B):
            return x if x.al is None else B(x.d, (x.al[0], self.map1(x.al[1])))
        return ew(lambda v: v if isinstance(v, D) else ZERO if v is not None and not v != v else v, x)

    def same1(self, op, x):
        if isinstance(x, B):
            return x
        f = abs if op == "abs" else (lambda v: v)
        return ew(lambda v: v if isinstance(v, D) or v is None else f(v), x)

    PY = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
          "not": lambda a: not a, "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b, "max2": max, "min2": min,
          "max": max, "min": min}

    def elemn(self, op, xs):
        if any(isinstance(x, B) for x in xs):
            al = aligned(xs)
            return B(join(*[self.whole(x) for x in xs]), al and (al[0], self.elemn(op, al[1])))

        def f(*v):
            if any(isinstance(x, D) for x in v):
                if op == "and" and any(x is False for x in v):
                    return False
                if op == "or" and any(x is True for x in v):
                    return True
                if op == "mul" and self.null and any(isinstance(x, (int, float)) and x == 0 for x in v):
                    return 0
                return join(*v)
            if any(x is None or isinstance(x, str) for x in v):
                return v[0] == v[1] if op == "eq" else None
            try:
                if op == "add":
                    return sum(v)
                if op == "mul":
                    r = 1
                    for x in v:
                        r = r * x
                    return r
                if op == "and":
                    return all(v)
                if op == "or":
                    return any(v)
                if op == "pow":
                    return float(v[0]) ** v[1]
                return self.PY[op](*v) if op in self.PY else ZERO
            except (ZeroDivisionError, ValueError, OverflowError, TypeError):
                return ZERO
        return ew(f, *xs)

    def whole(self, x):
        if isinstance(x, B):
            return x.d
        if isinstance(x, A):
            return pick(x.d)
        return x if isinstance(x, D) else ZERO

    # -- choice
    def o_where(self, t, c, a, b):
        c, a, b = self(c), self(a), self(b)
        if any(isinstance(x, B) for x in (c, a, b)):
            al = aligned((c, a, b))
            return B(pick([self.whole(x) for x in (c, a, b)]), al and (al[0], self.where(*al[1])))
        return self.where(c, a, b)

    def where(self, c, a, b):
        def f(x, y, z):
            if isinstance(x, D):
                return join(x, y, z)
            return None if x is None else y if x else z
        return ew(f, c, a, b)

    def o_phi(self, t, c, a, b):
        try:
            v = self(c)
        except Unread:
            v = ZERO
        if not isinstance(v, (D, B, A)) and v is not None:
            return self(a) if v else self(b)
        r = self.merge(self(a), self(b))
        if self.control and isinstance(v, D) and v.m:
            k = ~self.pattern(0b111 | 0b11111 << 7)
            d = D(v.s & k, v.m & k)
            if d.m:
                return B(join(r.d, d)) if isinstance(r, B) else ew(lambda x: join(x, d), r)
        return r

    def merge(self, a, b):
        if a is b:
            return a
        if isinstance(a, B) or isinstance(b, B):
            return B(pick([self.whole(a), self.whole(b)]))
        if lift(a).sh != lift(b).sh:
            try:
                sh = bshape([lift(a).sh, lift(b).sh])
            except Unread:
                return B(pick([self.whole(a), self.whole(b)]))
            return A(sh, [merge(p, q) for p, q in zip(bcast(a, sh), bcast(b, sh))])
        return down(A(lift(a).sh, [merge(p, q) for p, q in zip(lift(a).d, lift(b).d)]))

    # -- reductions: which levels a vertical integral runs over is not a matter of locality
    HB = sum(1 << i for i in range(7, 12))

    def total(self, vs):
        s, h = 0, None
        m = 0
        for v in vs:
            a, b = masks(v)
            s |= a
            m |= b
            if isinstance(v, D):
                h = a if h is None else h & a
        pat = self.pattern(self.HB)
        drop = (s & ~(h or 0)) & pat
        return D(s & ~drop, m & ~drop)

    def pattern(self, bits):
        n = len(self.ids) + 1
        return bits * sum(1 << (BITS * k) for k in range(n))

    def vred(self, t, a, ax, fn=None):
        v = self(a)
        if isinstance(v, B):
            return v if ax not in (None, tm.NONE) else v.d

        def f(vals):
            if fn is not None and vals and not any(isinstance(x, D) for x in vals):
                try:
                    return fn(vals)
                except (TypeError, ValueError):
                    return ZERO
            return self.total(vals)
        e = Ev.red(_Const(v), f, None, None if ax is None or ax is tm.NONE else tm.c(self.axint(ax)))
        return e

    def axint(self, ax):
        if isinstance(ax, T) and ax.op == "tup":
            return tuple(self.int(x) for x in ax.args)
        return self.int(ax) if isinstance(ax, T) else ax

    def reduction(self, t, *a):
        pa = [x for x in a if isinstance(x, T) and x.op != "kw"]
        k = kws(t)
        if t.op in ("max", "min") and len(pa) > 1 and "axis" not in k and not (
                pa[1] is tm.NONE or len(pa) == 2 and pa[1].op == "c" and isinstance(self(pa[0]), (A, B))):
            return self.elemn(t.op, [self(x) for x in pa])
        ax = k.get("axis", pa[1] if len(pa) > 1 else None)
        fn = {"any": any, "all": all, "max": max, "min": min, "sum": sum}.get(t.op)
        if len(a) and a[0].op == "tup" and t.op in ("max", "min", "argmax", "argmin", "sum") and ax in (None, tm.NONE):
            fn = fn or None
        return self.vred(t, a[0], ax, fn)
    for _n in ("sum", "mean", "nansum", "nanmean", "any", "all", "max", "min", "nanmax", "nanmin", "argmax", "argmin",
               "median", "std", "var", "prod", "nanstd", "count_nonzero", "np_count_nonzero", "nanmedian", "nanprod",
               "nanargmax", "nanargmin", "len"):
        locals()["o_" + _n] = reduction

    def o_max2(self, t, *a):
        return self.elemn(t.op, [self(x) for x in a])

    def o_trapz(self, t, y, x=None, *r):
        pa = [z for z in t.args if isinstance(z, T) and z.op != "kw"]
        k = kws(t)
        ax = k.get("axis", pa[2] if len(pa) > 2 else tm.c(-1))
        v = self(y)
        w = self(k.get("x", pa[1] if len(pa) > 1 else tm.ZERO))
        if isinstance(v, B):
            return B(pick([self.whole(v), self.whole(w)]))
        wd = self.total(w.d) if isinstance(w, A) else self.whole(w)
        return Ev.red(_Const(v), lambda vs: join(self.total(vs), wd), None, ax)
    o_np_trapz = o_trapz

    def o_cumsum(self, t, a, *r):
        v = self(a)
        if isinstance(v, B):
            return v
        ax = axis(t, 1)
        if ax is None and len(lift(v).sh) != 1:
            n = lift(v)
            v, ax = A((len(n.d),), n.d), 0
        return self.along(v, ax or 0, lambda xs: [self.total(xs[:k + 1]) for k in range(len(xs))])
    o_nancumsum = o_cumprod = o_cumsum

    def along(self, v, ax, f):
        """f: list of values along an axis -> list"""
        v = lift(v)
        if ax == "?":
            raise Unread("axis")
        ax %= len(v.sh)
        o = list(range(len(v.sh)))
        o.remove(ax)
        o.append(ax)
        w = permute(v, o)
        n = w.sh[-1]
        out = []
        for k in range(0, len(w.d), n):
            out += f(w.d[k:k + n])
        m = len(out) * n // len(w.d) if w.d else 0
        inv = [o.index(x) for x in range(len(o))]
        return permute(A(w.sh[:-1] + (m,), out), inv)

    def o_diff(self, t, a, *r):
        v = self(a)
        if isinstance(v, B):
            return v
        pa = [z for z in t.args if isinstance(z, T) and z.op != "kw"]
        k = kws(t)
        ax = k.get("axis", pa[1] if len(pa) > 1 else tm.c(-1))
        ax = self.int(ax) if ax is not tm.NONE else -1
        v = lift(v)
        for nm in ("prepend", "append"):
            if nm in k:
                x = self(k[nm])
                sh = list(v.sh)
                if isinstance(x, B):
                    raise Unread("diff")
                sh[ax % len(sh)] = x.sh[ax % len(sh)] if isinstance(x, A) else 1
                e = A(sh, bcast(x, tuple(sh)))
                v = self.cat([e, v] if nm == "prepend" else [v, e], ax)
        return self.along(v, ax, lambda xs: [self.total([p, q]) for p, q in zip(xs, xs[1:])])

    # -- structure
    def cat(self, vs, ax):
        vs = [lift(v) for v in vs]
        ax %= len(vs[0].sh)
        o = list(range(len(vs[0].sh)))
        o.remove(ax)
        o.insert(0, ax)
        ws = [permute(v, o) for v in vs]
        if any(w.sh[1:] != ws[0].sh[1:] for w in ws):
            raise Unread("concat")
        w = A((sum(x.sh[0] for x in ws),) + ws[0].sh[1:], [y for x in ws for y in x.d])
        return permute(w, [o.index(x) for x in range(len(o))])

    def items(self, l):
        out = []
        for e in l.args:
            if e.op == "map":
                out += self.expand(e)
            else:
                out.append(self(e))
        return out

    def expand(self, e):
        if len(e.args) < 3:
            raise Unread("map")
        body, dom, bv = e.args[:3]
        d = dom.args[0] if dom.op == "dom" else dom
        if d.op in ("range", "arange"):
            seq = list(range(*[self.int(x) for x in d.args]))
        else:
            n = self(d)
            if isinstance(n, bool) or not isinstance(n, int):
                if isinstance(n, A):
                    seq = [A(n.sh[1:], n.d[k * size(n.sh[1:]):(k + 1) * size(n.sh[1:])]) if len(n.sh) > 1 else n.d[k]
                           for k in range(n.sh[0])]
                else:
                    raise Unread("map over unknown")
            else:
                seq = list(range(n))
        old = self.env.get(bv)
        out = []
        try:
            for k in seq:
                self.env[bv] = k
                self.cache.append({"syms": {bv}})
                try:
                    out.append(self(body))
                finally:
                    self.cache.pop()
        finally:
            if old is None:
                self.env.pop(bv, None)
            else:
                self.env[bv] = old
        return out

    def o_map(self, t, *a):
        return self.pile(self.expand(t))

    def pile(self, vs, ax=0):
        if any(isinstance(v, B) for v in vs):
            return B(pick([self.whole(v) for v in vs]))
        vs = [lift(v) for v in vs]
        if not vs:
            return A((0,), [])
        if any(v.sh != vs[0].sh for v in vs):
            raise Unread("ragged")
        w = A((len(vs),) + vs[0].sh, [y for v in vs for y in v.d])
        ax %= len(w.sh)
        o = list(range(1, len(w.sh)))
        o.insert(ax, 0)
        return permute(w, o) if ax else w

    def o_tup(self, t, *a):
        return self.pile(self.items(t))

    def o_stack(self, t, l, ax=None, *r):
        if l.op == "tup":
            return self.pile(self.items(l), self.int(ax) if ax is not None else 0)
        if l.op == "map":
            return self.pile(self.expand(l), self.int(ax) if ax is not None else 0)
        raise Unread("stack")

    def o_concat(self, t, l, ax=None, *r):
        if l.op != "tup":
            raise Unread("concat")
        vs = self.items(l)
        if any(isinstance(v, B) for v in vs):
            return B(pick([self.whole(v) for v in vs]))
        if ax is None or ax is tm.NONE:
            return self.cat([A((len(lift(v).d),), lift(v).d) for v in vs], 0)
        return self.cat(vs, self.int(ax))

    def o_fill(self, t, v, sh=None, *r):
        try:
            n = self.dimsof(sh)
        except Unread:
            return B(self.whole(self(v)))
        x = self(v) if not (v.op == "c" and v.args[0] == "undef") else None
        return down(A(n, [x] * size(n)))

    def dimsof(self, sh):
        if sh is None:
            raise Unread("shape")
        if sh.op == "tup":
            return tuple(self.int(x) for x in sh.args)
        if sh.op == "dim" and len(sh.args) == 2 and sh.args[1] in ("shape", "reps"):
            x = sh.args[0]
            if sh.args[1] == "shape" and x.op != "tup" and not (x.op == "dim" and x.args[1] in ("shape", "reps")):
                v = self(x)
                if isinstance(v, B):
                    raise Unread("unknown shape")
                return lift(v).sh
            return self.dimsof(x)
        return (self.int(sh),)

    def int(self, t):
        v = self(t)
        if isinstance(v, (bool, D, B, A)) or not isinstance(v, (int, float)) or v != int(v):
            raise Unread("integer " + tm.show(t, 3)[:80])
        return int(v)

    def o_dim(self, t, a, k):
        if isinstance(a, T) and k in ("shape", "reps"):
            return self.pile(list(self.dimsof(t)))
        if isinstance(a, T):
            if isinstance(k, tuple) and k[0] == "shape" and a.op == "tup":
                return self.dimsof(tm.mk("dim", a, "shape"))[k[1]]
            v = self(a)
            if isinstance(v, B):
                return v.d
            if isinstance(k, tuple) and k[0] == "shape":
                return lift(v).sh[k[1]]
            if k in ("len", 0) and lift(v).sh:
                return lift(v).sh[0]
            if k == "size":
                return len(lift(v).d)
            if k == "ndim":
                return len(lift(v).sh)
            if isinstance(k, int):
                return lift(v).sh[k]
            raise Unread("dim %s" % (k,))
        return Ev.o_dim(self, t, a, k)

    def o_tile(self, t, a, reps, *r):
        v = self(a)
        if isinstance(v, B):
            return v
        n = list(self.dimsof(reps))
        v = lift(v)
        k = max(len(n), len(v.sh))
        n = [1] * (k - len(n)) + n
        sh = (1,) * (k - len(v.sh)) + v.sh
        w = A(sh, v.d)
        out = tuple(x * y for x, y in zip(n, sh))
        return A(out, [w.at([i % m for i, m in zip(ix, sh)]) for ix in indexes(out)])
    def bl(name):
        f = getattr(Ev, name)

        def g(self, t, a, *r):
            v = self(a)
            return v if isinstance(v, B) else f(self, t, a, *r)
        return g
    for _n in ("T", "transpose", "swapaxes", "reshape", "ravel", "flatten", "flip", "reshape_F", "ravel_F"):
        locals()["o_" + _n] = bl("o_" + _n)

    def o_squeeze(self, t, a, ax=None, *r):
        v = self(a)
        if isinstance(v, B):
            return v
        return Ev.o_squeeze(self, t, a, ax, *r)

    def o_np_roll(self, t, a, n, *r):
        v = self(a)
        if isinstance(v, B):
            return v
        ax = axis(t, 2)
        n = self.int(n)
        if ax is None:
            v = lift(v)
            m = n % max(1, len(v.d))
            return down(A(v.sh, v.d[len(v.d) - m:] + v.d[:len(v.d) - m]))
        return self.along(v, ax, lambda xs: xs[len(xs) - n % len(xs):] + xs[:len(xs) - n % len(xs)])
    o_roll = o_np_roll

    def o_np_interp(self, t, x, *r):
        v = self(x)
        w = [self(z) for z in r if isinstance(z, T) and z.op != "kw"]
        e = join(*[self.total(lift(z).d) if not isinstance(z, B) else z.d for z in w])
        if isinstance(v, B):
            return B(pick([v.d, e]))
        return ew(lambda q: join(q, e), v)
    o_interp = o_np_interp

    def o_np_polyval(self, t, p, x, *r):
        return self.map1(self(x))

    def o_call(self, t, f, *a):
        vs = []
        for x in a:
            if isinstance(x, T) and x.op == "tup":
                vs += [self(y) for y in x.args]
            elif isinstance(x, T) and x.op != "kw":
                vs.append(self(x))
        return self.elemn("call", vs)

    def o_np_meshgrid(self, t, *a):
        raise Unread("meshgrid")

    def o_random_permutation(self, t, r, n, *k):
        v = self(n)
        if isinstance(v, A):
            return B(pick(v.d))
        if isinstance(v, int) and not isinstance(v, bool):
            return A((v,), [ZERO] * v)
        return B(self.whole(v))

    def opaque(self, t, *a):
        return B(pick([self.whole(self(x)) for x in a if isinstance(x, T) and x.op not in ("kw", "rand")]))
    o_nonzero = o_np_argwhere = o_np_setdiff1d = o_np_flatnonzero = o_np_unique = o_np_intersect1d = o_np_union1d = opaque
    o_np_concatenate = o_sort = o_argsort = o_np_sort = opaque

    def o_random_gamma(self, t, r, *a):
        vs = [self(x) for x in a[1:] if isinstance(x, T) and x.op != "kw"]
        sz = a[-1]
        return B(join(*[self.whole(v) for v in vs]))
    o_random_uniform = o_random_normal = o_random_gamma

    def o_dictsel(self, t, key, *a):
        return B(pick([self.whole(self(x)) for x in a if isinstance(x, T)])) if a else ZERO

    # -- indexing
    def unknown_key(self, x):
        return isinstance(x, B) or isinstance(x, D) or isinstance(x, A) and any(isinstance(y, D) for y in x.d)

    def keyval(self, x):
        if x.op in ("slice", "none") or x is tm.NONE or x.op == "c" and x.args[0] is Ellipsis:
            return None
        y = x
        if y.op == "idx" and y.args[0].op == "nonzero" and y.args[1] is tm.ZERO:
            y = y.args[0]
        if y.op == "nonzero":
            m = self(y.args[0])
            if isinstance(m, A) and (y is x or len(m.sh) == 1):
                return A(m.sh, [v if isinstance(v, D) else bool(v) for v in m.d])
        return self(x)

    def string(self, k):
        return k.op == "c" and isinstance(k.args[0], str)

    def table(self, a, k):
        """column of a table: the value stored under the name, else the column of the file"""
        while a.op in ("to_xarray", "copy", "deepcopy"):
            a = a.args[0]
        while a.op == "store":
            if self.string(a.args[1]):
                if a.args[1] is k:
                    return self(a.args[2])
            a = a.args[0]
        return A((self.lut,), [ZERO] * self.lut)

    def o_idx(self, t, a, k):
        if self.string(k):
            return self.table(a, k)
        if a.op == "np:meshgrid":
            xs = [self(x) for x in a.args if isinstance(x, T) and x.op != "kw"]
            if kws(a) or len(xs) != 2 or not all(isinstance(x, A) and len(x.sh) == 1 for x in xs):
                raise Unread("meshgrid")
            x, y = xs
            i = self.int(k)
            sh = (y.sh[0], x.sh[0])
            return A(sh, [(x.d[q] if i == 0 else y.d[p]) for p, q in indexes(sh)])
        if a.op == "tup" and k.op == "c" and isinstance(k.args[0], int) and not any(x.op == "map" for x in a.args):
            return self(a.args[k.args[0]])
        if a.op == "nonzero":
            return self(a)
        v = self(a)
        if isinstance(v, B):
            e = [self(x) for x in self.keys(k) if x.op not in ("slice", "none")]
            return B(v.d)
        v = lift(v)
        ks = self.keys(k)
        vals = [self.keyval(x) for x in ks]
        if any(isinstance(x, A) and len(x.sh) > 1 for x in vals) or any(self.unknown_key(x) for x in vals) or any(
                isinstance(x, A) and x.d and isinstance(x.d[0], bool) for x in vals):
            if len(ks) == 1 and isinstance(vals[0], A) and vals[0].sh == v.sh:
                m = ks[0].args[0] if ks[0].op == "nonzero" else ks[0]
                w = A(v.sh, [join(p, q) for p, q in zip(v.d, vals[0].d)])
                return B(pick(w.d) if v.d else ZERO, (m, w))
            if any(x.op == "none" or x is tm.NONE for x in ks):
                raise Unread("index")
            return self.pickidx(v, ks, vals)
        return Ev.o_idx(self, t, a, k)

    def regions(self, v, ks, vals):
        """per axis: ('int', i) | ('list', [..]) | ('any', deps, known length or None)"""
        out, ax = [], 0
        n = sum(1 for x in ks if not (x.op == "c" and x.args[0] is Ellipsis))
        for x, w in zip(ks, vals):
            if x.op == "c" and x.args[0] is Ellipsis:
                for _ in range(len(v.sh) - n):
                    out.append(("list", list(range(v.sh[ax]))))
                    ax += 1
                continue
            if ax >= len(v.sh):
                raise Unread("too many indices")
            m = v.sh[ax]
            if x.op == "slice":
                try:
                    p = [None if (y is tm.NONE or y.op == "none") else self.int(y) for y in x.args]
                    out.append(("list", list(range(m))[slice(*p)]))
                except Unread:
                    out.append(("any", ZERO))
            elif isinstance(w, B):
                out.append(("any", w.d))
            elif isinstance(w, D):
                out.append(("one", w))
            elif isinstance(w, A):
                if self.unknown_key(w):
                    out.append(("any", pick(w.d)))
                elif len(w.sh) == 1 and not isinstance(w.d[0] if w.d else 0, bool):
                    out.append(("list", [int(z) % m for z in w.d]))
                elif len(w.sh) == 1 and len(w.d) == m:
                    out.append(("list", [i for i, z in enumerate(w.d) if z]))
                else:
                    raise Unread("index")
            elif isinstance(w, (int, float)) and not isinstance(w, bool) and w == int(w) and -m <= w < m:
                out.append(("int", int(w) % m))
            else:
                raise Unread("index")
            ax += 1
        while ax < len(v.sh):
            out.append(("list", list(range(v.sh[ax]))))
            ax += 1
        return out

    def pickidx(self, v, ks, vals):
        rg = self.regions(v, ks, vals)
        dep = join(*[r[1] for r in rg if r[0] in ("any", "one")])
        if any(r[0] == "any" for r in rg):
            xs = [v.at(ix) for ix in indexes_in(v.sh, rg)]
            p = pick(xs) if xs else ZERO
            return B(join(p, dep))
        osh = [len(r[1]) for r in rg if r[0] == "list"]
        out = []
        for ix in indexes(osh):
            it = iter(ix)
            fixed = [("int", r[1]) if r[0] == "int" else ("int", r[1][next(it)]) if r[0] == "list" else r for r in rg]
            out.append(join(pick([v.at(q) for q in indexes_in(v.sh, fixed)]), dep))
        return down(A(osh, out))

    def o_store(self, t, a, k, x):
        if self.string(k):
            raise Unread("table as array")
        v = self(a)
        w = self(x)
        ks = self.keys(k)
        if isinstance(v, B):
            return B(pick([v.d, self.whole(w)]))
        if v is None or not isinstance(v, A):
            v = lift(v)
        vals = [self.keyval(y) for y in ks]
        if len(ks) == 1 and isinstance(vals[0], A) and vals[0].sh == v.sh and v.sh:
            m = vals[0]
            if isinstance(w, A) and w.sh not in ((), v.sh):
                w = B(pick(w.d))
            if isinstance(w, B) and w.al is not None and w.al[0] is (ks[0].args[0] if ks[0].op == "nonzero" else
                                                                     ks[0]) and lift(w.al[1]).sh == v.sh:
                w = w.al[1]
            if isinstance(w, B):
                return A(v.sh, [join(q, c, w.d) if c is not False else q for c, q in zip(m.d, v.d)])
            wd = bcast(w, v.sh)
            return A(v.sh, [p if c is True else q if c is False else join(c, p, q) for c, p, q in zip(m.d, wd, v.d)])
        if sum(isinstance(y, A) and not any(isinstance(z, D) for z in y.d) for y in vals) > 1:
            raise Unread("paired indices")
        if isinstance(w, B) or any(isinstance(y, (A, B, D)) for y in vals):
            rg = self.regions(v, ks, vals)
            dep = join(*[r[1] for r in rg if r[0] in ("any", "one")])
            full = not any(r[0] in ("any", "one") for r in rg)
            lst = [r for r in rg if r[0] == "list"]
            wa = None
            if isinstance(w, A):
                try:
                    osh = tuple(len(r[1]) for r in lst)
                    wa = A(osh, bcast(w, osh)) if not any(r[0] == "any" for r in rg) or len(w.sh) <= 0 else None
                except Unread:
                    wa = None
            ww = w if not isinstance(w, (A, B)) else self.whole(w)
            d = list(v.d)
            masked = {}
            for p, (y, val) in enumerate(zip(ks, vals)):
                if isinstance(val, A) and self.unknown_key(val) and len(val.sh) == 1 and p < len(v.sh) and \
                        val.sh[0] == v.sh[p]:
                    masked[p] = val.d
            for ix in indexes_in(v.sh, rg):
                o = 0
                for n, i in zip(v.sh, ix):
                    o = o * n + i
                if wa is not None:
                    pos = [r[1].index(i) for r, i in zip(rg, ix) if r[0] == "list"]
                    val = wa.at(pos)
                else:
                    val = ww
                e = join(*[masked[p][ix[p]] for p in masked]) if masked else dep
                d[o] = val if full and not isinstance(w, B) else join(d[o], val, e) if not full else join(val)
            return down(A(v.sh, d))
        return Ev.o_store(self, t, a, k, x)

    # -- loops
    def o_loop(self, t, dom, head, *vs):
        if dom.op == "dom":
            n = self(dom.args[0])
            if isinstance(n, int) and not isinstance(n, bool):
                dom = tm.mk("range", tm.ZERO, tm.c(n), tm.ONE)
        if dom.op in ("range", "arange"):
            try:
                [self.int(x) for x in dom.args]
                return Ev.o_loop(self, t, dom, head, *vs)
            except Unread as e:
                if not str(e).startswith("integer"):
                    raise
        return self.fixpoint(t, dom, head, *vs)

    def fixpoint(self, t, dom, head, *vs):
        tri = [vs[k:k + 3] for k in range(0, len(vs), 3)]
        state = {m: self(i) for m, i, p in tri}
        syms = set(state)
        bv = tm.mk("bv", head.args[0])
        old = {m: self.env.get(m) for m in list(syms) + [bv]}
        try:
            for n in range(8):
                self.env.update(state)
                self.env[bv] = ZERO
                self.cache.append({"syms": syms | {bv}})
                try:
                    new = {m: self.merge(state[m], self(p)) for m, i, p in tri}
                finally:
                    self.cache.pop()
                if all(self.same(new[m], state[m]) for m in state):
                    break
                state = new
            else:
                raise Unread("no fixpoint")
        finally:
            for m, v in old.items():
                if v is None:
                    self.env.pop(m, None)
                else:
                    self.env[m] = v
        return state[head]

    def same(self, a, b):
        if isinstance(a, B) or isinstance(b, B):
            return isinstance(a, B) and isinstance(b, B) and a.d == b.d
        a, b = lift(a), lift(b)
        return a.sh == b.sh and all(p is q or p == q or p != p and q != q for p, q in zip(a.d, b.d))

    # -- answer
    def outside(self, t, dims, skip=()):
        """[(where, leaf, axis letter, index read, own index, sure)] over the elements of t"""
        v = self(t)
        if isinstance(v, B):
            raise Unread("shape of the result")
        v = lift(v)
        by = {n: l for l, n in self.n.items()}
        if dims is None:
            if not all(n in by for n in v.sh):
                raise Unread("shape %s of the result" % (v.sh,))
            dims = "".join(by[n] for n in v.sh)
        names = sorted(self.ids, key=self.ids.get)
        off = {"S": (0, 3), "T": (3, 4), "H": (7, 5)}
        out = {}
        for ix in indexes(v.sh):
            x = v.at(ix)
            if not isinstance(x, D):
                continue
            for l, i in zip(dims, ix):
                o, w = off[l]
                foreign = self.pattern(((1 << w) - 1 - (1 << i)) << o)
                bad = x.m & foreign
                while bad:
                    b = bad & -bad
                    bad ^= b
                    p = b.bit_length() - 1
                    nm, j = names[p // BITS], p % BITS - o
                    sure = bool(x.s & b)
                    key = (nm, l, sure)
                    out.setdefault(key, (j, i))
        return out


    def reach(self, t, letter="H"):
        """{leaf: {own index: ([indexes surely read], [indexes possibly read])}} along one axis"""
        v = self(t)
        if isinstance(v, B):
            raise Unread("shape of the result")
        v = lift(v)
        by = {n: l for l, n in self.n.items()}
        if not all(n in by for n in v.sh):
            raise Unread("shape %s of the result" % (v.sh,))
        if letter not in [by[n] for n in v.sh]:
            return {}
        ax = [by[n] for n in v.sh].index(letter)
        names = sorted(self.ids, key=self.ids.get)
        o, w = {"S": (0, 3), "T": (3, 4), "H": (7, 5)}[letter]
        n = self.n[letter]
        whole = self.pattern(((1 << n) - 1) << o)
        out = {}
        for ix in indexes(v.sh):
            x = v.at(ix)
            if not isinstance(x, D):
                continue
            for k, src in ((0, x.s), (1, x.m)):
                b = src & whole
                while b:
                    low = b & -b
                    b ^= low
                    p = low.bit_length() - 1
                    out.setdefault(names[p // BITS], {}).setdefault(ix[ax], (set(), set()))[k].add(p % BITS - o)
        return out


def indexes_in(sh, rg):
    import itertools
    return itertools.product(*[[r[1]] if r[0] == "int" else r[1] if r[0] == "list" else range(n)
                               for n, r in zip(sh, rg)])


class _Const(Ev):
    """reduction over an already evaluated array"""

    def __init__(self, v):
        self.v = v

    def __call__(self, t):
        return self.v if t is None else t.args[0]

    def int(self, t):
        v = t.args[0]
        return v if not (isinstance(v, float)) else int(v)
