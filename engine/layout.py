"""Datasets with known dimension names and sizes: xarray's layout operations (stack, transpose, squeeze, rename, ...)
as permutations and reshapes of each variable, so that where every element goes can be read off the resulting terms."""
from . import terms as tm
from .elem import Ev, A, Unread, lift, size
from .values import *  # noqa

c = tm.c


def tup(xs):
    return tm.mk("tup", *[c(x) for x in xs])


class Layout:
    """sizes: dimension -> size; leaves: leaf name -> shape"""

    def __init__(self, s, sizes, leaves):
        self.s, self.sizes, self.leaves = s, dict(sizes), dict(leaves)
        self.labels = {}        # dimension -> coordinate label -> index
        self.known = {}         # leaf name -> elements

    def ev(self, t):
        e = Ev(1, {}, {}, dict(self.sizes))
        e.values = {k: (lambda q, k=k, sh=sh: A(sh, [(k, n) for n in range(size(sh))]))
                    for k, sh in self.leaves.items()}
        e.values.update({k: (lambda q, v=v: v) for k, v in self.known.items()})
        try:
            return lift(e(t))
        except TypeError as z:
            raise Unread(str(z))

    # -- reading
    def var(self, n, k):
        return self.s.node(n.vars[k])

    def dims(self, n):
        out = []
        for k in n.vars:
            for d in self.var(n, k).dims or ():
                if d not in out:
                    out.append(d)
        return tuple(out)

    def is_coord(self, n, k):
        return k in n.coords or self.var(n, k).dims == (k,)

    def keys(self, n):
        return [k for k in n.vars if not self.is_coord(n, k)]

    def term(self, d):
        return self.s.view(d.buf, d.path)

    def make(self, d, t, dims):
        return self.s.new(DA(self.s.new(Buf(t, None)), (), self.s.copy_attrs(d.attrs), d.name, tuple(dims)))

    def counter(self, d):
        """the coordinate of a dimension that has none"""
        s = self.s
        return Ref(s.new(DA(s.new(Buf(tm.mk("range", c(0), c(self.sizes[d]), c(1)), None)), (), s.new(Dct({})), d, (d,))))

    # -- one variable
    def transpose(self, d, order):
        if tuple(order) == tuple(d.dims):
            return d.buf and self.make(d, self.term(d), d.dims)
        return self.make(d, tm.mk("transpose", self.term(d), tup([d.dims.index(x) for x in order])), order)

    def drop1(self, d, dims):
        keep = [x for x in d.dims if x not in dims]
        return self.make(d, tm.mk("reshape", self.term(d), tup([self.sizes[x] for x in keep])) if keep else
                         tm.mk("idx", self.term(d), tup([0] * len(d.dims))), keep)

    # -- datasets
    def names(self, v):
        if isinstance(v, K):
            return [v.val]
        its = self.s.unpack_any(v)
        if its is None or not all(isinstance(x, K) for x in its):
            raise Unread("dimension names")
        return [x.val for x in its]

    # -- selections
    def indexers(self, a, kw):
        m = {k: v for k, v in kw.items() if k not in ("method", "drop", "tolerance")}
        if a and isinstance(a[0], Ref) and isinstance(self.s.node(a[0].addr), Dct):
            m.update(self.s.node(a[0].addr).items)
        return m

    def position(self, name, dim, v, kw):
        """an index term for one dimension; None when it is not known"""
        if isinstance(v, K) and isinstance(v.val, int) and not isinstance(v.val, bool):
            if name == "isel" or dim not in self.labels:
                return c(v.val)
        if name == "sel":
            t = self.s.term(v)
            for k, i in self.labels.get(dim, {}).items():
                if t is k or isinstance(v, K) and v.val == k or any(x is k or x.op == "c" and x.args[0] == k for x in tm.nodes([t])):
                    return c(i)
            return None
        t = self.s.term(v)
        x = self.ev(t)
        if x.sh == (self.sizes[dim],) and all(isinstance(y, bool) for y in x.d):
            return t
        return None

    def take(self, d, pos):
        """a variable at the given index term of each dimension"""
        ks, dims = [], []
        for x in d.dims:
            k = pos.get(x)
            ks.append(tm.mk("slice", tm.NONE, tm.NONE, tm.NONE) if k is None else k)
            if k is None or not tm.isnum(k):
                dims.append(x)
        return self.make(d, tm.mk("idx", self.term(d), tm.mk("tup", *ks)), dims)

    def select(self, n, name, a, kw):
        pos = {}
        for dim, v in self.indexers(a, kw).items():
            pos[dim] = self.position(name, dim, v, kw)
            if pos[dim] is None:
                return None
        return pos

    def method(self, r, n, name, a, kw, node):
        s = self.s
        if name in ("isel", "sel"):
            pos = self.select(n, name, a, kw)
            if pos is None:
                return None
            vs = {}
            for k in n.vars:
                d = self.var(n, k)
                vs[k] = self.take(d, pos) if set(d.dims or ()) & set(pos) else n.vars[k]
            return Ref(s.new(n.but(vars=vs)))
        if name == "keys":
            v = s.lst([("item", K(k)) for k in self.keys(n)])
            s.keyviews[v.addr] = r
            return v
        if name == "expand_dims":
            ds = self.names(a[0] if a else kw["dim"])
            vs = {}
            for x in ds:
                if x in self.dims(n):
                    s.throw("ValueError", "dimension %s already exists" % x, node)
                self.sizes[x] = 1
            for k in n.vars:
                d = self.var(n, k)
                if self.is_coord(n, k):
                    vs[k] = n.vars[k]
                    continue
                vs[k] = self.make(d, tm.mk("reshape", self.term(d), tup([1] * len(ds) + [self.sizes[x] for x in d.dims])),
                                  tuple(ds) + tuple(d.dims))
            return Ref(s.new(n.but(vars=vs)))
        if name == "squeeze":
            v = a[0] if a else kw.get("dim")
            ds = self.names(v) if v is not None and v != K(None) else [x for x in self.dims(n) if self.sizes[x] == 1]
            for x in ds:
                if x not in self.dims(n):
                    s.throw("KeyError", "no dimension %s" % x, node)
                if self.sizes[x] != 1:
                    s.throw("ValueError", "cannot squeeze %s of size %d" % (x, self.sizes[x]), node)
            co = dict(n.coords)
            vs = {}
            for k in n.vars:
                d = self.var(n, k)
                vs[k] = self.drop1(d, ds) if set(ds) & set(d.dims) else n.vars[k]
                if d.dims == (k,) and k in ds:
                    co[k] = True
            return Ref(s.new(n.but(vars=vs, coords=co)))
        if name == "transpose":
            ds = [y for x in a for y in self.names(x)]
            if any(x not in self.dims(n) for x in ds) or (ds and set(ds) != set(self.dims(n))):
                s.throw("ValueError", "transpose over %s of a dataset with %s" % (ds, self.dims(n)), node)
            ds = ds or list(reversed(self.dims(n)))
            return Ref(s.new(n.but(vars={k: self.transpose(self.var(n, k), [x for x in ds if x in self.var(n, k).dims])
                                         if self.var(n, k).dims else n.vars[k] for k in n.vars})))
        if name == "stack":
            m = dict(kw)
            if a and isinstance(a[0], Ref) and isinstance(s.node(a[0].addr), Dct):
                m.update(s.node(a[0].addr).items)
            for new, ds in m.items():
                n = self.stack(n, new, self.names(ds), node)
            return Ref(s.new(n))
        if name == "drop_dims":
            ds = self.names(a[0])
            vs = {k: v for k, v in n.vars.items() if not set(ds) & set(self.var(n, k).dims)}
            return Ref(s.new(n.but(vars=vs, coords={k: v for k, v in n.coords.items() if k in vs})))
        if name in ("rename", "rename_vars", "rename_dims"):
            m = dict(kw)
            if a and isinstance(a[0], Ref) and isinstance(s.node(a[0].addr), Dct):
                m.update(s.node(a[0].addr).items)
            m = {k: v.val for k, v in m.items()}
            for k in m:
                if k not in n.vars and k not in self.dims(n):
                    s.throw("ValueError", "cannot rename %s, which is not there" % k, node)
            for k, v in m.items():
                if k in self.sizes:
                    self.sizes[v] = self.sizes[k]
            vs = {}
            for k in n.vars:
                d = self.var(n, k)
                kk = m.get(k, k) if name != "rename_dims" else k
                if kk in vs:
                    s.throw("ValueError", "the new name %s conflicts" % kk, node)
                dd = tuple(m.get(x, x) if name != "rename_vars" else x for x in d.dims)
                vs[kk] = s.new(d.but(dims=dd, name=kk)) if (dd, kk) != (d.dims, k) else n.vars[k]
            return Ref(s.new(n.but(vars=vs, coords={m.get(k, k): v for k, v in n.coords.items()})))
        if name in ("reset_index", "drop_vars", "drop"):
            ds = set(self.names(a[0]))
            if name == "reset_index":
                return Ref(s.new(n.but()))
            vs = {k: v for k, v in n.vars.items() if k not in ds}
            return Ref(s.new(n.but(vars=vs, coords={k: v for k, v in n.coords.items() if k in vs})))
        if name in ("load", "compute", "copy"):
            return Ref(s.new(n.but()))
        return None

    def stack(self, n, new, ds, node):
        for x in ds:
            if x not in self.dims(n):
                self.s.throw("ValueError", "no dimension %s to stack" % x, node)
        if new in n.vars or new in self.dims(n):
            self.s.throw("ValueError", "%s already exists" % new, node)
        self.sizes[new] = size([self.sizes[x] for x in ds])
        n = n.but(vars=dict(n.vars, **{d: self.counter(d).addr for d in ds if d not in n.vars}))
        vs, co = {}, dict(n.coords)
        for k in n.vars:
            d = self.var(n, k)
            if not set(d.dims) & set(ds):
                vs[k] = n.vars[k]
                continue
            if d.dims == (k,):
                co[k] = True       # a level of the new index
            miss = [x for x in ds if x not in d.dims]
            dd = list(d.dims) + miss
            t = self.term(d)
            if miss:
                t = tm.mk("reshape", t, tup([self.sizes[x] for x in d.dims] + [1] * len(miss)))
                t = tm.mk("tile", t, tup([1] * len(d.dims) + [self.sizes[x] for x in miss]))
            rest = [x for x in dd if x not in ds]
            order = rest + list(ds)
            t = tm.mk("transpose", t, tup([dd.index(x) for x in order]))
            t = tm.mk("reshape", t, tup([self.sizes[x] for x in rest] + [self.sizes[new]]))
            vs[k] = self.make(d, t, rest + [new])
        return n.but(vars=vs, coords=co)

    def set(self, n, name, da, node):
        """sizes of a variable put into a dataset must agree with its dimensions"""
        if da.dims is None:
            raise Unread("dimensions of %s" % name)
        sh = self.ev(self.term(da)).sh
        if len(sh) != len(da.dims):
            self.s.throw("ValueError", "%s: %d-dimensional data for dimensions %s" % (name, len(sh), da.dims), node)
        for x, k in zip(da.dims, sh):
            if x in self.dims(n) and self.sizes[x] != k:
                self.s.throw("ValueError", "%s: %d values along %s, which has %d" % (name, k, x, self.sizes[x]), node)
            self.sizes[x] = k
