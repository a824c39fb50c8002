"""Array formulas compared element by element: an extracted term is evaluated over small index domains with a number
drawn per leaf element, so that two formulas that read other elements, or combine them otherwise, differ."""
import itertools
import math

from . import terms as tm
from .ident import _rnd

T = tm.T
INF = float("inf")
NANV = float("nan")


class Unread(Exception):
    pass


class Misfit(Unread):
    """the real operation would raise"""


class A:
    """array: shape and row-major values"""
    __slots__ = ("sh", "d")

    def __init__(self, sh, d):
        self.sh, self.d = tuple(sh), d

    def at(self, ix):
        o = 0
        for n, i in zip(self.sh, ix):
            o = o * n + i
        return self.d[o]


class G(A):
    """array of which only the fill value is known; it grows to what is stored"""
    __slots__ = ("default",)

    def __init__(self, sh, d, default):
        A.__init__(self, sh, d)
        self.default = default

    def grown(self, sh):
        sh = tuple(max(a, b) for a, b in zip(self.sh, sh))
        return G(sh, [self.at(ix) if all(i < n for i, n in zip(ix, self.sh)) else self.default for ix in indexes(sh)],
                 self.default)


def size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


def indexes(sh):
    return itertools.product(*[range(n) for n in sh])


def lift(v):
    return v if isinstance(v, A) else A((), [v])


def down(a):
    return a.d[0] if isinstance(a, A) and a.sh == () else a


def bshape(shs):
    n = max([len(s) for s in shs] + [0])
    out = []
    for k in range(n):
        m = 1
        for s in shs:
            j = k - (n - len(s))
            if j >= 0 and s[j] != 1:
                if m not in (1, s[j]):
                    raise Unread("shapes %s" % (shs,))
                m = s[j]
        out.append(m)
    return tuple(out)


def bcast(a, sh):
    a = lift(a)
    if a.sh == sh:
        return a.d
    off = len(sh) - len(a.sh)
    return [a.at([0 if n == 1 else i for n, i in zip(a.sh, ix[off:])]) for ix in indexes(sh)]


def ew(f, *xs):
    """elementwise"""
    if not any(isinstance(x, A) for x in xs):
        return f(*xs)
    sh = bshape([lift(x).sh for x in xs])
    return down(A(sh, [f(*v) for v in zip(*[bcast(x, sh) for x in xs])]))


def num(f):
    def g(*v):
        if any(x is None for x in v):
            return None
        try:
            return f(*v)
        except (ZeroDivisionError, ValueError, OverflowError):
            return NANV
    return g


def isnan(x):
    return isinstance(x, float) and x != x


def div0(a, b):
    """power"""
    if b == -1 and a == 0:
        return INF
    if isinstance(a, (int, float)) and a < 0 and b != int(b):
        return NANV
    return float(a) ** b


def permute(a, ax):
    inv = [0] * len(ax)
    sh = tuple(a.sh[x] for x in ax)
    out = []
    for ix in indexes(sh):
        src = [0] * len(ax)
        for k, x in enumerate(ax):
            src[x] = ix[k]
        out.append(a.at(src))
    return A(sh, out)


class Ev:
    """leaves: name -> shape (tuple of ints) or number; dims: dimension name -> int"""

    def __init__(self, seed, shapes, scalars=None, dims=None, fill=None, values=None, lo=.3, hi=2.):
        self.seed, self.shapes, self.scalars, self.dims = seed, shapes, scalars or {}, dims or {}
        self.values = values or {}
        self.lo, self.hi = lo, hi
        self.env = {}
        self.cache = [{}]
        self.read = set()
        self.steps = 0
        self.fmemo = {}

    def leaf(self, nm):
        self.read.add(nm)
        if nm in self.values:
            v = self.values[nm]
            return v(self) if callable(v) else v
        if nm in self.scalars:
            return self.scalars[nm]
        if nm in self.shapes:
            sh = self.shapes[nm]
            return A(sh, [self.lo + (self.hi - self.lo) * _rnd(self.seed, nm, ix) for ix in indexes(sh)])
        raise Unread("leaf %s" % nm)

    def free(self, t):
        """loop symbols a term depends on"""
        r = self.fmemo.get(t)
        if r is None:
            if t.op in ("bv", "bmu"):
                r = frozenset([t])
            else:
                r = frozenset().union(*[self.free(x) for x in t.args if isinstance(x, T)])
                if t.op == "loop":
                    r = frozenset(x for x in r if x.args[0] != t.args[1].args[0])
            self.fmemo[t] = r
        return r

    def __call__(self, t):
        self.steps += 1
        if self.steps > 400000:
            raise Unread("too long")
        if t in self.env:
            return self.env[t]
        fr = self.free(t)
        lvl = 0
        for k in range(len(self.cache) - 1, 0, -1):
            if fr & self.cache[k]["syms"]:
                lvl = k
                break
        c = self.cache[lvl]
        if t in c:
            return c[t]
        v = self.go(t)
        c[t] = v
        return v

    def go(self, t):
        op = t.op
        if op == "c":
            return t.args[0]
        if op == "nan" or t is tm.NAN:
            return NANV
        if op == "inf":
            return INF
        if op == "undef":
            return None
        if op in ("in", "stale", "arg", "par", "opt"):
            return self.leaf(t.args[0])
        f = getattr(self, "o_" + op.replace(":", "_").replace(".", "_"), None)
        if f is None:
            raise Unread("op %s" % op)
        return f(t, *t.args)

    # -- elementwise
    def o_add(self, t, *a):
        return ew(num(lambda *v: math.fsum(v) if any(isinstance(x, float) for x in v) and all(
            not isnan(x) and abs(x) != INF for x in v) else sum(v)), *[self(x) for x in a])

    def o_mul(self, t, *a):
        def f(*v):
            r = 1
            for x in v:
                r = r * x
            return r
        return ew(num(f), *[self(x) for x in a])

    def o_pow(self, t, a, b):
        return ew(num(div0), self(a), self(b))

    def o_floordiv(self, t, a, b):
        return ew(num(lambda x, y: x // y), self(a), self(b))

    def o_mod(self, t, a, b):
        return ew(num(lambda x, y: x % y), self(a), self(b))

    def o_exp(self, t, a):
        return ew(num(math.exp), self(a))

    def o_log(self, t, a):
        return ew(num(math.log), self(a))

    def o_log10(self, t, a):
        return ew(num(math.log10), self(a))

    def o_sqrt(self, t, a):
        return ew(num(math.sqrt), self(a))

    def o_abs(self, t, a):
        return ew(num(abs), self(a))

    def o_lt(self, t, a, b):
        return ew(num(lambda x, y: x < y), self(a), self(b))

    def o_le(self, t, a, b):
        return ew(num(lambda x, y: x <= y), self(a), self(b))

    def o_eq(self, t, a, b):
        return ew(num(lambda x, y: x == y), self(a), self(b))

    def o_not(self, t, a):
        return ew(num(lambda x: not x), self(a))

    def o_and(self, t, *a):
        return ew(num(lambda *v: all(v)), *[self(x) for x in a])

    def o_or(self, t, *a):
        return ew(num(lambda *v: any(v)), *[self(x) for x in a])

    def o_isnan(self, t, a):
        return ew(num(isnan), self(a))

    def o_isfinite(self, t, a):
        return ew(num(lambda x: not isnan(x) and abs(x) != INF), self(a))

    def o_isinf(self, t, a):
        return ew(num(lambda x: abs(x) == INF), self(a))

    def o_where(self, t, c, a, b):
        return ew(lambda x, y, z: None if x is None else y if x else z, self(c), self(a), self(b))

    def o_astype(self, t, a, *r):
        return self(a)

    def o_copy(self, t, a, *r):
        return self(a)

    o_deepcopy = o_array = o_asarray = o_float = o_copy

    def o_phi(self, t, c, a, b):
        v = self(c)
        if isinstance(v, A):
            raise Unread("array condition")
        if v is None:
            raise Unread("undefined condition")
        return self(a) if v else self(b)

    def o_max(self, t, *a):
        return self.mm(max, a)

    def o_min(self, t, *a):
        return self.mm(min, a)

    def o_argmin(self, t, a, ax=None, *r):
        return self.arg(min, a, ax)

    def o_argmax(self, t, a, ax=None, *r):
        return self.arg(max, a, ax)

    def arg(self, f, a, ax):
        def g(v):
            for i, x in enumerate(v):
                if isnan(x):
                    return i
            return v.index(f(v))
        return self.red(g, a, ax if ax is not None else tm.NONE)

    def mm(self, f, a):
        if len(a) == 2 and (a[1] is tm.NONE or a[1].op == "c" and isinstance(self(a[0]), A)):
            return self.red(lambda v: NANV if any(map(isnan, v)) else f(v), a[0], a[1])
        return ew(num(lambda *v: NANV if any(map(isnan, v)) else f(v)), *[self(x) for x in a])

    # -- structure
    def o_fill(self, t, v, sh=None, *r):
        n = self.dimsof(sh)
        x = self(v) if not (v.op == "c" and v.args[0] == "undef") else None
        return down(A(n, [x] * size(n)))

    def dimsof(self, sh):
        if sh is None:
            raise Unread("shape")
        if sh.op == "tup":
            return tuple(self.int(x) for x in sh.args)
        if sh.op == "dim" and len(sh.args) == 2 and sh.args[1] == "shape" and sh.args[0].op == "tup":
            return self.dimsof(sh.args[0])
        if sh.op == "dim" and len(sh.args) == 2 and sh.args[1] == "shape":
            return lift(self(sh.args[0])).sh
        return (self.int(sh),)

    def int(self, t):
        v = self(t)
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != int(v):
            raise Unread("integer " + tm.show(t, 3)[:80])
        return int(v)

    def o_dim(self, t, a, k):
        if isinstance(a, str):
            if k in self.dims:
                return self.dims[k]
            raise Unread("dimension %s" % k)
        if not isinstance(a, T):
            raise Unread("dim")
        if isinstance(k, tuple) and k[0] == "shape" and a.op == "idx" and a.args[0].op == "nonzero":
            return sum(1 for x in lift(self(a.args[0].args[0])).d if x)
        v = lift(self(a))
        if isinstance(k, tuple) and k[0] == "shape":
            return v.sh[k[1]]
        if k in ("len", 0) and v.sh:
            return v.sh[0]
        if k == "size":
            return len(v.d)
        if k == "ndim":
            return len(v.sh)
        if isinstance(k, int):
            return v.sh[k]
        raise Unread("dim %s" % (k,))

    def o_T(self, t, a):
        v = lift(self(a))
        return permute(v, list(reversed(range(len(v.sh)))))

    def o_transpose(self, t, a, ax=None):
        v = lift(self(a))
        if ax is None:
            return permute(v, list(reversed(range(len(v.sh)))))
        if ax.op != "tup":
            raise Unread("transpose")
        ax = [self.int(x) for x in ax.args]
        if len(ax) != len(v.sh):
            raise Unread("transpose rank")
        return permute(v, [x % len(v.sh) for x in ax])

    def o_swapaxes(self, t, a, i, j):
        v = lift(self(a))
        ax = list(range(len(v.sh)))
        i, j = self.int(i), self.int(j)
        ax[i], ax[j] = ax[j], ax[i]
        return permute(v, ax)

    def o_squeeze(self, t, a, ax=None, *r):
        v = lift(self(a))
        if ax is None or ax is tm.NONE:
            return down(A([n for n in v.sh if n != 1], v.d))
        k = self.int(ax) % len(v.sh)
        return down(A(v.sh[:k] + v.sh[k + 1:], v.d))

    def o_reshape(self, t, a, *r):
        v = lift(self(a))
        if len(r) == 1:
            r0 = r[0]
            n = list(self.dimsof(r0)) if r0.op in ("tup", "dim") else [self.int(r0)]
        else:
            n = [self.int(x) for x in r]
        if -1 in n:
            k = n.index(-1)
            rest = size([x for i, x in enumerate(n) if i != k])
            if not rest or len(v.d) % rest:
                raise Unread("reshape")
            n[k] = len(v.d) // rest
        if size(n) != len(v.d):
            raise Misfit("cannot reshape %d elements into %s" % (len(v.d), tuple(n)))
        return down(A(n, v.d))

    def o_reshape_F(self, t, a, *r):
        v = lift(self(a))
        back = permute(v, list(reversed(range(len(v.sh)))))
        if len(r) == 1 and r[0].op in ("tup", "dim"):
            n = self.dimsof(r[0])
        else:
            n = tuple(self.int(x) for x in r)
        if size(n) != len(v.d):
            raise Misfit("cannot reshape %d elements into %s" % (len(v.d), n))
        return down(permute(A(n[::-1], back.d), list(reversed(range(len(n))))))

    def o_ravel(self, t, a, *r):
        v = lift(self(a))
        return A((len(v.d),), v.d)

    def o_ravel_F(self, t, a, *r):
        v = lift(self(a))
        return A((len(v.d),), permute(v, list(reversed(range(len(v.sh))))).d)

    def o_flip(self, t, a, ax=None):
        v = lift(self(a))
        if ax is None or ax is tm.NONE:
            axs = set(range(len(v.sh)))
        else:
            axs = {self.int(x) % len(v.sh) for x in (ax.args if ax.op == "tup" else (ax,))}
        return down(A(v.sh, [v.at([m - 1 - i if k in axs else i for k, (i, m) in enumerate(zip(ix, v.sh))])
                             for ix in indexes(v.sh)]))

    o_flatten = o_ravel

    def o_tup(self, t, *a):
        vs = [lift(self(x)) for x in a]
        if any(x.sh != vs[0].sh for x in vs):
            raise Unread("ragged")
        return A((len(vs),) + vs[0].sh, [y for x in vs for y in x.d]) if vs else A((0,), [])

    def o_tile(self, t, a, reps, *r):
        v = lift(self(a))
        if reps.op == "dim" and len(reps.args) == 2 and reps.args[1] == "reps":
            reps = reps.args[0]
        n = [self.int(x) for x in reps.args] if reps.op == "tup" else [self.int(reps)]
        k = max(len(n), len(v.sh))
        n = [1] * (k - len(n)) + n
        sh = (1,) * (k - len(v.sh)) + v.sh
        w = A(sh, v.d)
        out = tuple(x * y for x, y in zip(n, sh))
        return A(out, [w.at([i % m for i, m in zip(ix, sh)]) for ix in indexes(out)])

    def o_range(self, t, a, b, st):
        v = list(range(self.int(a), self.int(b), self.int(st)))
        return A((len(v),), v)

    o_arange = o_range

    def o_diff(self, t, a, *r):
        ax, k = self.axis(t, 1)
        v = lift(self(a))
        for nm in ("prepend", "append"):
            if nm in k:
                x = lift(self(k[nm]))
                sh = list(v.sh)
                sh[ax % len(sh)] = x.sh[ax % len(sh)] if len(x.sh) == len(sh) else 1
                e = A(sh, bcast(x, tuple(sh)))
                v = self.cat([e, v] if nm == "prepend" else [v, e], ax)
        if set(k) - {"prepend", "append", "axis"}:
            raise Unread("diff")
        return self.along(v, ax, lambda xs: [None if x is None or y is None else y - x for x, y in zip(xs, xs[1:])])

    def axis(self, t, pos, default=-1):
        pa = [z for z in t.args if isinstance(z, T) and z.op != "kw"]
        k = {z.args[0]: z.args[1] for z in t.args if isinstance(z, T) and z.op == "kw"}
        ax = k.get("axis", pa[pos] if len(pa) > pos else None)
        return (default if ax is None or ax is tm.NONE else self.int(ax)), k

    def along(self, v, ax, f):
        """f: list of values along an axis -> list"""
        v = lift(v)
        o = [i for i in range(len(v.sh)) if i != ax % len(v.sh)] + [ax % len(v.sh)]
        w = permute(v, o)
        n = w.sh[-1]
        out = []
        for k in range(0, len(w.d), n):
            out += f(w.d[k:k + n])
        m = len(out) * n // len(w.d) if w.d else 0
        return permute(A(w.sh[:-1] + (m,), out), [o.index(x) for x in range(len(o))])

    def o_cumsum(self, t, a, *r):
        ax, k = self.axis(t, 1, None)
        v = lift(self(a))
        if ax is None:
            if len(v.sh) != 1:
                v = A((len(v.d),), v.d)
            ax = 0

        def f(xs):
            o, tot = [], 0
            for x in xs:
                tot = None if tot is None or x is None else tot + x
                o.append(tot)
            return o
        return self.along(v, ax, f)

    def cat(self, vs, ax):
        vs = [lift(v) for v in vs]
        ax %= len(vs[0].sh)
        o = [ax] + [i for i in range(len(vs[0].sh)) if i != ax]
        ws = [permute(v, o) for v in vs]
        if any(len(w.sh) != len(ws[0].sh) or w.sh[1:] != ws[0].sh[1:] for w in ws):
            raise Misfit("concatenated arrays of %s" % (", ".join(str(v.sh) for v in vs)))
        w = A((sum(x.sh[0] for x in ws),) + ws[0].sh[1:], [y for x in ws for y in x.d])
        return permute(w, [o.index(x) for x in range(len(o))])

    def o_concat(self, t, l, ax=None, *r):
        if l.op not in ("tup", "list"):
            raise Unread("concat")
        ax = 0 if ax is None or ax is tm.NONE else self.int(ax)
        return self.cat([self(x) for x in l.args], ax)

    # -- indexing
    def keys(self, k):
        if k.op == "tup":
            return list(k.args)
        return [k]

    def sel(self, v, k):
        """per kept output axis the source index lists; ints drop"""
        ks = self.keys(k)
        if any(x.op == "c" and x.args[0] is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x.op == "c" and x.args[0] is Ellipsis][0]
            n = len(v.sh) - sum(1 for x in ks if x is not tm.NONE and not (x.op == "c" and x.args[0] is Ellipsis))
            ks = ks[:i] + [mkslice()] * n + ks[i + 1:]
        out, ax, adv = [], 0, 0
        for x in ks:
            if x is tm.NONE or x.op == "none":
                out.append(("new",))
                continue
            if ax >= len(v.sh):
                raise Unread("too many indices")
            n = v.sh[ax]
            if x.op == "slice":
                a, b, c = [None if (y is tm.NONE or y.op == "none") else self.int(y) for y in x.args]
                out.append(("list", list(range(n))[slice(a, b, c)]))
            else:
                y = self(x)
                if isinstance(y, A):
                    if len(y.sh) != 1:
                        raise Unread("array index")
                    d = [i for i, z in enumerate(y.d) if z] if y.d and isinstance(y.d[0], bool) else y.d
                    adv += 1
                    out.append(("list", [int(z) % n for z in d]))
                else:
                    if isinstance(y, (bool, str)) or y is None or y != int(y):
                        raise Unread("index")
                    if not -n <= y < n:
                        raise Unread("index %s out of %s" % (y, n))
                    out.append(("int", int(y) % n))
            ax += 1
        if adv > 1:
            raise Unread("two array indices")
        while ax < len(v.sh):
            out.append(("list", list(range(v.sh[ax]))))
            ax += 1
        return out

    def o_idx(self, t, a, k):
        if a.op == "nonzero":
            raise Unread("nonzero")
        if a.op in ("tup",) and k.op == "c" and isinstance(k.args[0], int):
            return self(a.args[k.args[0]])
        v = lift(self(a))
        if len(self.keys(k)) == 1:
            x = self.keys(k)[0]
            if x.op == "nonzero" or x.op in ("lt", "le", "eq", "not", "and", "or", "isnan", "isfinite"):
                m = lift(self(x.args[0] if x.op == "nonzero" else x))
                if m.sh == v.sh and v.sh:
                    d = [y for y, z in zip(v.d, m.d) if z]
                    return A((len(d),), d)
        sl = self.sel(v, k)
        osh = [1 if s[0] == "new" else len(s[1]) for s in sl if s[0] != "int"]
        out = []
        for ix in indexes(osh):
            it = iter(ix)
            src = []
            for s in sl:
                if s[0] == "int":
                    src.append(s[1])
                elif s[0] == "new":
                    next(it)
                else:
                    src.append(s[1][next(it)])
            out.append(v.at(src))
        return down(A(osh, out))

    def o_store(self, t, a, k, x):
        v = lift(self(a))
        w = self(x)
        ks = self.keys(k)
        if len(ks) == 1 and (ks[0].op == "nonzero" or ks[0].op in ("lt", "le", "eq", "not", "and", "or", "isnan",
                                                                   "isfinite")):
            m = lift(self(ks[0].args[0] if ks[0].op == "nonzero" else ks[0]))
            if m.sh == v.sh:
                if isinstance(w, A) and w.sh != v.sh:
                    raise Unread("mask store")
                wd = bcast(w, v.sh)
                return A(v.sh, [p if c else q for c, p, q in zip(m.d, wd, v.d)])
            raise Unread("mask shape")
        if v.sh == () and ks or isinstance(v, G):
            v = self.grow(v, ks, w)
        sl = self.sel(v, k)
        osh = [len(s[1]) for s in sl if s[0] == "list"]
        if any(s[0] == "new" for s in sl):
            raise Unread("store newaxis")
        wd = bcast(w, tuple(osh))
        d = list(v.d)
        for n, ix in enumerate(indexes(osh)):
            it = iter(ix)
            o = 0
            for s, m in zip(sl, v.sh):
                o = o * m + (s[1] if s[0] == "int" else s[1][next(it)])
            d[o] = wd[n]
        return G(v.sh, d, v.default) if isinstance(v, G) else down(A(v.sh, d))

    def grow(self, v, ks, w):
        if not isinstance(v, G):
            v = G((0,) * len(ks), [], v.d[0])
        need = []
        ws = list(lift(w).sh)
        free_ = [x for x in ks if x.op == "slice"]
        if len(ks) != len(v.sh) or len(ws) > len(free_):
            raise Unread("growing store")
        ws = [0] * (len(free_) - len(ws)) + ws
        for n, x in zip(v.sh, ks):
            if x.op == "slice":
                if any(not (y is tm.NONE or y.op == "none") for y in x.args):
                    raise Unread("growing slice")
                need.append(ws.pop(0))
            else:
                i = self.int(x)
                if i < 0:
                    raise Unread("growing index")
                need.append(i + 1)
        return v.grown(need)

    # -- reductions
    def red(self, f, a, ax=None):
        v = lift(self(a))
        if ax is None or ax is tm.NONE or ax.op == "none":
            return f(v.d)
        axs = [self.int(x) % len(v.sh) for x in (ax.args if ax.op == "tup" else (ax,))]
        osh = [n for i, n in enumerate(v.sh) if i not in axs]
        out = []
        for ix in indexes(osh):
            it = iter(ix)
            rs = [None if i in axs else next(it) for i in range(len(v.sh))]
            vals = []
            for jx in indexes([v.sh[i] for i in sorted(axs)]):
                jt = iter(jx)
                vals.append(v.at([next(jt) if r is None else r for r in rs]))
            out.append(f(vals))
        return down(A(osh, out))

    def o_sum(self, t, a, ax=None, *r):
        return self.red(lambda v: None if any(x is None for x in v) else sum(v), a, ax)

    def o_nansum(self, t, a, ax=None, *r):
        return self.red(lambda v: sum(x for x in v if not isnan(x)), a, ax)

    def o_mean(self, t, a, ax=None, *r):
        return self.red(lambda v: sum(v) / len(v), a, ax)

    def o_nanmean(self, t, a, ax=None, *r):
        def f(v):
            w = [x for x in v if not isnan(x)]
            return sum(w) / len(w) if w else NANV
        return self.red(f, a, ax)

    def o_any(self, t, a, ax=None, *r):
        return self.red(lambda v: any(v), a, ax)

    def o_all(self, t, a, ax=None, *r):
        return self.red(lambda v: all(v), a, ax)

    def o_nanmax(self, t, a, ax=None, *r):
        return self.red(lambda v: max([x for x in v if not isnan(x)], default=NANV), a, ax)

    def o_nanmin(self, t, a, ax=None, *r):
        return self.red(lambda v: min([x for x in v if not isnan(x)], default=NANV), a, ax)

    def o_isin(self, t, a, b, *r):
        if r:
            raise Unread("isin")
        if b.op == "tup" and len(b.args) == 1 and b.args[0].op == "map":
            b = b.args[0]
        b = lift(self(b)).d
        return ew(num(lambda x: any(x == y for y in b)), self(a))

    def o_count_nonzero(self, t, a, ax=None, *r):
        return self.red(lambda v: sum(1 for x in v if x), a, ax)

    o_np_count_nonzero = o_count_nonzero

    # -- loops over a range
    def o_map(self, t, body, dom, bv):
        """one row per pass"""
        if dom.op == "dom" and len(dom.args) == 1:
            r = range(self.int(dom.args[0]))
        elif dom.op in ("range", "arange"):
            r = range(*[self.int(x) for x in dom.args])
        else:
            raise Unread("map over " + dom.op)
        old, rows = self.env.get(bv), []
        try:
            for n in r:
                self.env[bv] = n
                self.cache.append({"syms": {bv}})
                try:
                    rows.append(lift(self(body)))
                finally:
                    self.cache.pop()
        finally:
            if old is None:
                self.env.pop(bv, None)
            else:
                self.env[bv] = old
        if not rows or any(x.sh != rows[0].sh for x in rows):
            raise Unread("rows of different length")
        return A((len(rows),) + rows[0].sh, [q for x in rows for q in x.d])

    def o_loop(self, t, dom, head, *vs):
        if dom.op not in ("range", "arange"):
            raise Unread("loop over " + dom.op)
        a, b, st = [self.int(x) for x in dom.args]
        tri = [vs[k:k + 3] for k in range(0, len(vs), 3)]
        state = {m: self(i) for m, i, p in tri}
        syms = set(state)
        bvs = [tm.mk("bv", head.args[0])]
        old = {m: self.env.get(m) for m in list(syms) + bvs}
        try:
            for n in range(a, b, st):
                self.env.update(state)
                for x in bvs:
                    self.env[x] = n
                self.cache.append({"syms": syms | set(bvs)})
                try:
                    new = {m: self(p) for m, i, p in tri}
                finally:
                    self.cache.pop()
                state = new
        finally:
            for m, v in old.items():
                if v is None:
                    self.env.pop(m, None)
                else:
                    self.env[m] = v
        if head in state:
            return state[head]
        raise Unread("loop head")


def mkslice():
    return tm.mk("slice", tm.NONE, tm.NONE, tm.NONE)


def same(x, y, tol=1e-9):
    x, y = lift(x), lift(y)
    if x.sh != y.sh:
        return False
    for p, q in zip(x.d, y.d):
        if p is None or q is None:
            if p is not q:
                return False
        elif isnan(p) or isnan(q):
            if isnan(p) != isnan(q):
                return False
        elif abs(p) == INF or abs(q) == INF:
            if p != q:
                return False
        elif abs(p - q) > tol * max(1e-300, abs(p), abs(q)):
            return False
    return True
