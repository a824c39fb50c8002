"""Calls: builtins, numpy, xarray, pint, pandas, dask, os, and methods of abstract values."""
import os

from . import terms as tm
from . import units
from .terms import c, mk, add, sub, mul, power, phi, where, idx
from .values import *  # noqa
from .lib import ELEM1, ARR_OUT, REDUCE, VALUE_PRESERVING

UFUNC2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
          "float_power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod"}
CMP2 = {"greater": "Gt", "greater_equal": "GtE", "less": "Lt", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq"}


class Calls:
    # ------------------------------------------------------------ external functions
    def call_ext(self, name, args, kwargs, node=None):
        for i, a in enumerate(args):
            if isinstance(a, Choice) and name.startswith("builtins."):
                return self.fork_value(
                    a.cond, lambda: self.call_ext(name, args[:i] + [a.a] + args[i + 1:], kwargs, node),
                    lambda: self.call_ext(name, args[:i] + [a.b] + args[i + 1:], kwargs, node))
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, None, args, kwargs, node)
            if r is not NotImplemented:
                return r
        pre, _, leaf = name.rpartition(".")
        m = None
        if pre == "builtins":
            m = getattr(self, "b_" + leaf, None)
        elif pre == "numpy" or pre == "numpy.ma":
            m = getattr(self, "np_" + leaf, None)
            if m is None:
                return self.np_default(leaf, args, kwargs, node)
        elif name.startswith("numpy.random"):
            return self.np_random(leaf, args, kwargs, node)
        elif pre == "numpy.ndarray":
            return self.np_default(leaf, args, kwargs, node)
        elif pre == "xarray":
            m = getattr(self, "xr_" + leaf, None)
        else:
            m = getattr(self, "e_" + name.replace(".", "_"), None) if not name[0].isupper() else None
            m = EXT.get(name)
            if m is not None:
                return m(self, args, kwargs, node)
        if m is not None:
            return m(args, kwargs, node)
        self.stats["ext"][name] = self.stats["ext"].get(name, 0) + 1
        if pre.startswith("matplotlib.") and self.DRAW & {leaf, "set_" + leaf}:
            self.draw(mk("ext:" + pre), "plt:" + leaf, args, kwargs, node)
        self.escape(args, kwargs, name, node)
        return Num(mk("ext:" + name, *self.argterms(args, kwargs)), "unk")

    def escape(self, args, kwargs, name, node):
        pass

    # ---- builtins
    def b_noop(self, a, kw, node):
        return NONE

    def b_len(self, a, kw, node):
        v = a[0]
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, K):
            if isinstance(v.val, str):
                return K(len(v.val))
            self.throw("TypeError", "object of type %s has no len()" % type(v.val).__name__, node)
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Lst) and n.concrete():
                return K(len(n.segs))
            if isinstance(n, Dct) and not n.extra and not n.auto:
                return K(len(n.items))
            if isinstance(n, St):
                return K(len(n.items))
        if isinstance(v, ExtM) and v.name == "__dims__":
            return K(len(self.dims_list(v.recv)))
        t = self.term(v)
        if t.op == "tup" and all(x.op not in ("map", "opt_item") for x in t.args):
            return K(len(t.args))
        if t.op == "dim" and len(t.args) == 2 and t.args[1] in ("shape", "dims"):
            return Num(mk("dim", t.args[0], "ndim"), "scalar")
        s = self.vshape(v)
        if s:
            return self.num(s[0], "scalar")
        return Num(mk("dim", self.skey(t), ("shape", 0)), "scalar")

    def b_range(self, a, kw, node, op="range"):
        v = [self.term(x) for x in a]
        if len(v) == 1:
            v = [tm.ZERO, v[0], tm.ONE]
        elif len(v) == 2:
            v = [v[0], v[1], tm.ONE]
        t = mk(op, *v[:3])
        if op == "range" and all(tm.isnum(x) for x in v):
            try:
                r = range(*[x.args[0] for x in v])
                if len(r) <= 64:
                    return self.lst([("item", K(x)) for x in r])
            except Exception:
                pass
        return Num(t, "arr" if op == "arange" else "range")

    def b_enumerate(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        st = self.term(a[1]) if len(a) > 1 else self.term(kw["start"]) if "start" in kw else tm.ZERO
        if all(s[0] == "item" for s in segs):
            return self.lst([("item", Tup([self.num(add(st, c(i)), "scalar"), s[1]])) for i, s in enumerate(segs)])
        if len(segs) == 1 and segs[0][0] == "gen":
            sy = self.gix()
            return self.lst([("gen", (("item", Tup([Num(add(st, sy), "scalar"),
                                                    self._freeze(self.gen_elem(segs[0], sy))])),), sy, segs[0][3])])
        return self.lst([("item", Tup([Num(mk("unk", "enum"), "scalar"), s[1] if s[0] == "item" else
                                       s[2][1] if s[0] == "opt" else self.gen_elem(s, self.gix())])) for s in segs])

    def b_zip(self, a, kw, node):
        return self.lst(self.zip_segs([self.iter_segs(x, node) for x in a], node))

    def b_map(self, a, kw, node):
        if len(a) == 2:
            segs = self.iter_segs(a[1], node)
        else:
            segs = self.zip_segs([self.iter_segs(x, node) for x in a[1:]], node)
        f = a[0]

        def g(x):
            xs = [x] if len(a) == 2 else (list(x.items) if isinstance(x, Tup) else [x])
            return self.call(f, xs, {}, node)
        return self.lst(self.map_segs(g, segs))

    def b_filter(self, a, kw, node):
        out = []
        for s in self.iter_segs(a[1], node):
            if s[0] == "item":
                t = self.truth(self.call(a[0], [s[1]], {}, node) if not (isinstance(a[0], K)) else s[1])
                if t is True:
                    out.append(s)
                elif t is not False:
                    out.append(("opt", t, s))
            else:
                out.append(s)
        return self.lst(out)

    def b_print(self, a, kw, node):
        return NONE

    def b_list(self, a, kw, node):
        return self.lst(self.iter_segs(a[0], node) if a else [])

    def b_tuple(self, a, kw, node):
        if not a:
            return Tup([])
        segs = self.iter_segs(a[0], node)
        if all(s[0] == "item" for s in segs):
            return Tup([s[1] for s in segs])
        return self.lst(segs)

    def b_set(self, a, kw, node):
        if not a:
            return Ref(self.new(St([])))
        segs = self.iter_segs(a[0], node)
        if all(s[0] == "item" for s in segs):
            return Ref(self.new(St(dict.fromkeys(s[1] for s in segs))))
        return self.lst(segs)

    b_frozenset = b_set

    def b_dict(self, a, kw, node):
        items, extra = {}, ()
        if a:
            v = a[0]
            if isinstance(v, Ref) and isinstance(self.node(v.addr), Dct):
                n = self.node(v.addr)
                items.update(n.items)
                extra = n.extra
            else:
                r = self.dict_from_segs(self.iter_segs(v, node))
                n = self.node(r.addr)
                items.update(n.items)
                extra = n.extra
        for k, v in kw.items():
            items[k] = v
        return Ref(self.new(Dct(items, extra)))

    def b_reversed(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        if all(s[0] != "gen" for s in segs):
            return self.lst(list(reversed(segs)))
        return Num(mk("reversed", self.term(a[0])))

    def b_sorted(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        if all(s[0] == "item" and isinstance(s[1], K) for s in segs) and "key" not in kw:
            try:
                r = sorted([s[1].val for s in segs], reverse=bool(kw.get("reverse", K(False)).val))
                return self.lst([("item", K(x)) for x in r])
            except Exception:
                pass
        if all(s[0] == "item" for s in segs) and "key" in kw:
            ks = [self.call(kw["key"], [s[1]], {}, node) for s in segs]
            if all(self.pykey(k) is not None for k in ks):
                try:
                    z = sorted(zip([self.pykey(k)[0] for k in ks], range(len(segs))),
                               reverse=bool(kw.get("reverse", K(False)).val))
                    return self.lst([segs[i] for _, i in z])
                except Exception:
                    pass
        return self.lst(segs)

    def _minmax(self, a, kw, node, op):
        xs = a
        if len(a) == 1:
            segs = self.iter_segs(a[0], node)
            if not all(s[0] == "item" for s in segs):
                return self.num(mk(op + "_reduce", self.term(a[0])), "scalar")
            xs = [s[1] for s in segs]
        if all(isinstance(x, K) for x in xs) and xs:
            try:
                return K((min if op == "min" else max)(x.val for x in xs))
            except Exception:
                pass
        return self.num(self.minmax(op, [self.term(x) for x in xs]), self.join_kind(*xs))

    def minmax(self, op, ts):
        flat = []
        for t in ts:
            flat.extend(t.args if t.op == op else [t])
        nums = [t for t in flat if tm.isnum(t)]
        rest = sorted(set(t for t in flat if not tm.isnum(t)), key=lambda t: t.id)
        if nums:
            rest.insert(0, c((min if op == "min" else max)(t.args[0] for t in nums)))
        return rest[0] if len(rest) == 1 else mk(op, *rest)

    def b_min(self, a, kw, node):
        return self._minmax(a, kw, node, "min")

    def b_max(self, a, kw, node):
        return self._minmax(a, kw, node, "max")

    def b_sum(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        if all(s[0] == "item" for s in segs):
            r = a[1] if len(a) > 1 else kw.get("start", K(0))
            for s in segs:
                r = self.binop("Add", r, s[1], node)
            return r
        return self.num(mk("sum", self.term(a[0])), "unk")

    def b_abs(self, a, kw, node):
        if isinstance(a[0], K):
            return K(abs(a[0].val))
        return self.num(mk("abs", self.term(a[0])), self.join_kind(a[0]))

    def b_round(self, a, kw, node):
        if all(isinstance(x, K) for x in a):
            return K(round(*[x.val for x in a]))
        return self.num(mk("round", *[self.term(x) for x in a]), self.join_kind(a[0]))

    def _anyall(self, a, isall, node):
        segs = self.iter_segs(a[0], node)
        if all(s[0] == "item" for s in segs):
            ts = []
            for s in segs:
                t = self.truth(s[1])
                ts.append(t if isinstance(t, tm.T) else c(t))
            t = tm.land(*ts) if isall else tm.lor(*ts)
            return K(bool(t.args[0])) if t.op == "c" else Num(t, "bool")
        return Num(mk("all" if isall else "any", self.term(a[0])), "bool")

    def b_any(self, a, kw, node):
        return self._anyall(a, False, node)

    def b_all(self, a, kw, node):
        return self._anyall(a, True, node)

    def _cast(self, f, op, a, node):
        if not a:
            return K(f())
        if isinstance(a[0], K):
            try:
                return K(f(a[0].val))
            except Exception:
                self.throw("TypeError" if a[0].val is None else "ValueError", "%s(%r)" % (op, a[0].val), node)
        t = self.term(a[0])
        return self.num(t if op == "float" else mk(op, t), "scalar")

    def b_int(self, a, kw, node):
        return self._cast(int, "int", a, node)

    def b_float(self, a, kw, node):
        return self._cast(float, "float", a, node)

    def b_bool(self, a, kw, node):
        t = self.truth(a[0])
        return K(t) if isinstance(t, bool) else Num(t, "bool")

    def b_str(self, a, kw, node):
        if not a:
            return K("")
        if isinstance(a[0], K):
            return K(str(a[0].val))
        return Num(mk("str", self.term(a[0])), "str")

    b_repr = b_str

    def b_slice(self, a, kw, node):
        a = list(a)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return Slice(*a[:3])

    def b_isinstance(self, a, kw, node):
        ts = a[1].items if isinstance(a[1], Tup) else (a[1],)
        rs = [self.isinst(a[0], t) for t in ts]
        if any(r is True for r in rs):
            return K(True)
        if all(r is False for r in rs):
            return K(False)
        return Num(mk("isinst", self.term(a[0]), *[self.term(t) for t in ts]), "bool")

    def isinst(self, v, t):
        nm = t.name.split(".")[-1] if isinstance(t, ExtV) else t.name if isinstance(t, ClassV) else None
        if isinstance(v, K):
            py = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes}.get(nm)
            if py is not None:
                return isinstance(v.val, py)
            if nm in ("integer", "floating", "number", "Number"):
                return None if isinstance(v.val, (int, float)) and nm == "Number" else False
            return False if nm is not None else None
        if isinstance(v, Tup):
            return nm in ("tuple", "Iterable", "Sequence") if nm != "object" else True
        if isinstance(v, Arr):
            return nm == "ndarray"
        if isinstance(v, (FuncV, BoundV)):
            return False
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Lst):
                return nm in ("list", "Iterable", "Sequence")
            if isinstance(n, Dct):
                return nm in ("dict", "Mapping")
            if isinstance(n, St):
                return nm == "set"
            if isinstance(n, DA):
                return nm == "DataArray"
            if isinstance(n, DS):
                return nm in ("Dataset",)
            if isinstance(n, Obj):
                return t in n.cls.mro() if isinstance(t, ClassV) else False
        if isinstance(v, Num):
            if v.kind == "str":
                return nm == "str"
            if v.kind in ("scalar", "bool"):
                if nm in ("str", "list", "tuple", "dict", "set", "ndarray", "DataArray", "Dataset"):
                    return False
                return None
            if v.kind == "da":
                return nm == "DataArray"
            if v.kind == "arr":
                return nm == "ndarray"
            if v.kind == "q":
                return True if nm in ("Quantity", "quantity") else False
            if isinstance(t, ClassV):
                return False
        return None

    def b_issubclass(self, a, kw, node):
        if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
            return K(a[1] in a[0].mro())
        return Num(mk("unk", "issubclass"), "bool")

    def b_type(self, a, kw, node):
        v = a[0]
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Obj):
                return n.cls
            return ExtV("builtins." + {Lst: "list", Dct: "dict", St: "set", DA: "DataArray", DS: "Dataset"}.get(
                type(n), "object"))
        if isinstance(v, K):
            return ExtV("builtins." + type(v.val).__name__)
        if isinstance(v, Tup):
            return ExtV("builtins.tuple")
        if isinstance(v, Arr):
            return ExtV("numpy.ndarray")
        return Num(mk("typeof", self.term(v)), "unk")

    def b_getattr(self, a, kw, node):
        if isinstance(a[1], K):
            if len(a) > 2:
                n = len(self.events)
                try:
                    from .interp import AbsRaise
                    return self.getattr(a[0], a[1].val, node)
                except AbsRaise:
                    del self.events[n:]
                    return a[2]
            return self.getattr(a[0], a[1].val, node)
        if isinstance(a[0], (ExtV,)) or isinstance(a[0], Num) or isinstance(a[0], ExtM):
            # getattr(ureg, units-string)
            return Num(mk("unit", self.term(a[1])), "q")
        if isinstance(a[0], Ref) and isinstance(self.node(a[0].addr), Obj):
            return Num(mk("dynattr", self.term(a[1])))
        return Num(mk("unit", self.term(a[1])), "q")

    def b_hasattr(self, a, kw, node):
        o = a[0]
        if isinstance(a[1], K):
            if isinstance(o, Ref):
                n = self.node(o.addr)
                if isinstance(n, Obj):
                    return K((a[1].val in n.fields and n.fields[a[1].val] is not UNBOUND)
                             or n.cls.find(a[1].val)[0] is not None)
                if isinstance(n, DA):
                    return K(a[1].val in ("attrs", "values", "dims", "name") or a[1].val in ("data", "coords"))
                if isinstance(n, DS):
                    return K(a[1].val in ("attrs", "dims") or self.ds_has(n, a[1].val))
            if isinstance(o, ModV):
                return K(a[1].val in self.node(o.env).vars)
            if isinstance(o, K):
                return K(hasattr(o.val, a[1].val))
            if isinstance(o, Arr):
                return K(a[1].val not in ("attrs", "values", "dims"))
        return Num(mk("unk", "hasattr"), "bool")

    def b_setattr(self, a, kw, node):
        if isinstance(a[1], K):
            self.setattr(a[0], a[1].val, a[2], node)
        return NONE

    def b_callable(self, a, kw, node):
        return K(isinstance(a[0], (FuncV, BoundV, ClassV, ExtV, ExtM)))

    def b_next(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        if segs and segs[0][0] == "item":
            return segs[0][1]
        if segs and segs[0][0] == "opt":
            v = segs[0][2][1]
            rest = segs[1:]
            d = a[1] if len(a) > 1 else NONE
            nxt = self.b_next([self.lst(rest)] + ([d] if len(a) > 1 else []), {}, node) if rest else d
            return Choice(segs[0][1], v, nxt)
        if not segs:
            if len(a) > 1:
                return a[1]
            self.throw("StopIteration", "", node)
        return self.gen_elem(segs[0], self.gix())

    def b_iter(self, a, kw, node):
        return a[0]

    def b_open(self, a, kw, node):
        return Num(mk("ext:open", self.term(a[0])))

    def b_pow(self, a, kw, node):
        return self.binop("Pow", a[0], a[1], node)

    def b_object(self, a, kw, node):
        return Num(mk("unk", "object"))

    def b_id(self, a, kw, node):
        return Num(mk("unk", "id"), "scalar")

    def b_vars(self, a, kw, node):
        if a and isinstance(a[0], Ref) and isinstance(self.node(a[0].addr), Obj):
            return Ref(self.new(Dct(dict(self.node(a[0].addr).fields))))
        return Ref(self.new(Dct({})))

    # ---- numpy
    def out(self, t, vs, forced=None, node=None):
        return self.num(t, forced or self.join_kind(*vs), self.bdims(*vs) if vs else None)

    def handle_out(self, kw, v, node):
        o = kw.get("out")
        if isinstance(o, Tup) and o.items:
            o = o.items[0]
        if isinstance(o, Arr):
            self.write_buf(o.buf, o.path, tm.FULL, self.term(v), node)
            return o
        if isinstance(o, Ref) and isinstance(self.node(o.addr), DA):
            n = self.node(o.addr)
            self.write_buf(n.buf, n.path, tm.FULL, self.term(v), node)
            return o
        return v

    def np_default(self, leaf, args, kwargs, node):
        if "where" in kwargs and leaf in (set(UFUNC2) | set(ELEM1)):
            v = Num(mk("np:" + leaf, *self.argterms(args, {k: x for k, x in kwargs.items() if k != "out"})), "arr")
            o = kwargs.get("out")
            if isinstance(o, Arr):
                t = tm.where(self.term(kwargs["where"]), self.term(self.np_default(leaf, args, {}, node)),
                             self.term(o))
                self.write_buf(o.buf, o.path, tm.FULL, t, node)
                return o
            return v
        if leaf in UFUNC2:
            return self.handle_out(kwargs, self.binop(UFUNC2[leaf], args[0], args[1], node), node)
        if leaf in CMP2:
            return self.compare(CMP2[leaf], args[0], args[1], node)
        if leaf in ELEM1:
            if isinstance(args[0], K) and isinstance(args[0].val, (int, float)):
                import math
                try:
                    return K(float(getattr(math, {"arctan": "atan", "arccos": "acos", "arcsin": "asin"}.get(leaf, leaf))(
                        args[0].val)))
                except Exception:
                    pass
            return self.handle_out(kwargs, self.out(mk(leaf, self.term(args[0])), args[:1]), node)
        if leaf in REDUCE:
            return self.reduce(leaf, args[0], args[1:], kwargs, node, isnp=True)
        self.stats["ext"]["numpy." + leaf] = self.stats["ext"].get("numpy." + leaf, 0) + 1
        kd = "arr" if leaf in ARR_OUT else "unk"
        r = Num(mk("np:" + leaf, *self.argterms(args, {k: v for k, v in kwargs.items() if k != "out"})), kd)
        return self.handle_out(kwargs, r, node)

    def axis_arg(self, rest, kw):
        for k in ("axis", "dim"):
            if k in kw:
                return self.term(kw[k])
        if rest:
            return self.term(rest[0])
        return tm.NONE

    def reduce(self, leaf, v, rest, kw, node, isnp=False):
        leaf = {"amax": "max", "amin": "min", "trapezoid": "trapz"}.get(leaf, leaf)
        ax = self.axis_arg(rest, kw)
        t = self.term(v)
        if leaf in ("sum", "nansum") and t.op == "tup" and ax is tm.ZERO and all(
                x.op not in ("map", "opt_item") for x in t.args):
            if leaf == "sum":
                return self.num(add(*t.args), "unk")
            return self.num(add(*[self.nan0(x) for x in t.args]), "unk")
        if leaf == "nansum" and ax is not None:
            t = self.nan0(t)
            leaf = "sum"
        if leaf == "cumsum" or leaf == "nancumsum":
            r = mk(leaf, t, ax)
            return self.handle_out(kw, self.num(r, self.join_kind(v), self.dims_of(v)), node)
        if leaf in ("all", "any") and isinstance(v, K):
            return K(bool(v.val))
        if leaf in ("all", "any") and t.op == "tup" and all(tm.isbool(x) or tm.isc(x) for x in t.args):
            xs = [x if tm.isbool(x) else c(bool(x.args[0])) for x in t.args]
            xs = [c(k) if k is not None else x for x, k in ((x, self.known(x)) for x in xs)]
            r = (tm.land if leaf == "all" else tm.lor)(*xs)
            return K(bool(r.args[0])) if r.op == "c" else Num(r, "bool")
        if leaf in ("all", "any") and self.kind_of(v) == "bool":
            return v
        if t.op == "fill" and leaf in ("max", "min", "mean", "nanmax", "nanmin", "nanmean", "median"):
            return self.num(t.args[0])
        kd = "scalar" if ax is tm.NONE and self.kind_of(v) != "da" else ("da" if self.kind_of(v) == "da" else "unk")
        if leaf in ("all", "any") and ax is tm.NONE and kd == "scalar":
            kd = "bool"
        extra = [mk("kw", k, self.term(x)) for k, x in sorted(kw.items()) if k not in ("axis", "dim", "out", "skipna",
                                                                                      "keepdims")]
        if leaf in ("percentile", "quantile"):
            r = mk(leaf, t, *([self.term(x) for x in rest] + extra))
        else:
            r = mk(leaf, t, ax, *extra)
        return self.handle_out(kw, self.num(r, kd), node)

    def nan0(self, t):
        if t.op == "fill" or tm.isnum(t):
            return t
        return where(mk("isnan", t), tm.ZERO, t)

    def np_sqrt(self, a, kw, node):
        return self.out(power(self.term(a[0]), c(0.5)), a[:1])

    def np_square(self, a, kw, node):
        return self.out(power(self.term(a[0]), c(2)), a[:1])

    def np_cbrt(self, a, kw, node):
        return self.out(power(self.term(a[0]), c(1. / 3.)), a[:1])

    def np_negative(self, a, kw, node):
        return self.out(tm.neg(self.term(a[0])), a[:1])

    def np_reciprocal(self, a, kw, node):
        return self.out(power(self.term(a[0]), c(-1)), a[:1])

    def np_abs(self, a, kw, node):
        if isinstance(a[0], K):
            return K(abs(a[0].val))
        return self.out(mk("abs", self.term(a[0])), a[:1])

    np_absolute = np_fabs = np_abs

    def np_isnan(self, a, kw, node):
        t = self.term(a[0])
        if tm.isnum(t):
            return K(False)
        return self.out(mk("isnan", t), a[:1], "bool" if self.kind_of(a[0]) == "scalar" else None)

    def np_isfinite(self, a, kw, node):
        t = self.term(a[0])
        if tm.isnum(t):
            return K(True)
        return self.out(mk("isfinite", t), a[:1], "bool" if self.kind_of(a[0]) == "scalar" else None)

    def np_logical_and(self, a, kw, node):
        return self.out(tm.land(self.bt(a[0]), self.bt(a[1])), a[:2])

    def np_logical_or(self, a, kw, node):
        return self.out(tm.lor(self.bt(a[0]), self.bt(a[1])), a[:2])

    def np_logical_not(self, a, kw, node):
        return self.out(tm.lnot(self.bt(a[0])), a[:1])

    def np_logical_xor(self, a, kw, node):
        return self.out(mk("xor", self.bt(a[0]), self.bt(a[1])), a[:2])

    np_bitwise_and, np_bitwise_or, np_invert = np_logical_and, np_logical_or, np_logical_not

    def bt(self, v):
        return self.term(v)

    def np_where(self, a, kw, node):
        if len(a) == 1:
            return Num(mk("nonzero", self.term(a[0])), "arr")
        cd = self.term(a[0])
        if cd.op == "fill":
            cd = cd.args[0]
        return self.num(where(cd, self.unfill(self.term(a[1])), self.unfill(self.term(a[2]))), "arr")

    def unfill(self, t):
        return t

    def np_nonzero(self, a, kw, node):
        return Num(mk("nonzero", self.term(a[0])), "arr")

    def np_nan_to_num(self, a, kw, node):
        t = self.term(a[0])
        v = self.term(kw["nan"]) if "nan" in kw else tm.ZERO
        r = self.out(where(mk("isnan", t), v, t), a[:1])
        if "copy" in kw and kw["copy"] == K(False) and isinstance(a[0], Arr):
            self.write_buf(a[0].buf, a[0].path, tm.FULL, self.term(r), node)
            return a[0]
        return r

    def fill(self, v, shape):
        return Num(mk("fill", v, shape), "arr")

    def np_zeros(self, a, kw, node):
        return self.fill(tm.ZERO, self.term(a[0] if a else kw["shape"]))

    def np_ones(self, a, kw, node):
        return self.fill(tm.ONE, self.term(a[0] if a else kw["shape"]))

    def np_empty(self, a, kw, node):
        return self.fill(mk("undef"), self.term(a[0] if a else kw["shape"]))

    def np_full(self, a, kw, node):
        return self.fill(self.term(a[1] if len(a) > 1 else kw["fill_value"]), self.term(a[0] if a else kw["shape"]))

    def _like(self, a, v):
        t = mk("dim", self.skey(self.term(a[0])), "shape")
        if self.kind_of(a[0]) == "da":
            return Num(mk("fill", v, t), "da", self.dims_of(a[0]))
        return self.fill(v, t)

    def np_zeros_like(self, a, kw, node):
        return self._like(a, tm.ZERO)

    def np_ones_like(self, a, kw, node):
        return self._like(a, tm.ONE)

    def np_empty_like(self, a, kw, node):
        return self._like(a, mk("undef"))

    def np_full_like(self, a, kw, node):
        return self._like(a, self.term(a[1] if len(a) > 1 else kw["fill_value"]))

    def np_masked_where(self, a, kw, node):
        """without a copy the masked array shares the data it masks"""
        if len(a) > 1 and (a[2] if len(a) > 2 else kw.get("copy")) == K(False) and \
                isinstance(self.np_asarray([a[1]], {}, node), Arr):
            return self.np_asarray([a[1]], {}, node)
        return self.np_default("masked_where", a, {k: v for k, v in kw.items() if k != "copy"}, node)

    def np_masked_invalid(self, a, kw, node):
        if (a[1] if len(a) > 1 else kw.get("copy")) == K(False) and isinstance(self.np_asarray([a[0]], {}, node), Arr):
            return self.np_asarray([a[0]], {}, node)
        return self.np_default("masked_invalid", a, {k: v for k, v in kw.items() if k != "copy"}, node)

    def np_array(self, a, kw, node):
        v = a[0]
        if kw.get("copy") == K(False) and isinstance(v, Ref | Arr):
            return self.np_asarray(a, {}, node)
        if isinstance(v, K) and isinstance(v.val, (int, float)):
            return v
        return Num(self.term(v), "arr")

    def np_asarray(self, a, kw, node):
        if isinstance(a[0], Arr):
            return a[0]
        if isinstance(a[0], Ref) and isinstance(self.node(a[0].addr), DA):
            n = self.node(a[0].addr)
            return Arr(n.buf, n.path)
        return Num(self.term(a[0]), "arr")

    np_asanyarray = np_ascontiguousarray = np_atleast_1d = np_atleast_2d = np_asarray

    def np_copy(self, a, kw, node):
        return Num(self.term(a[0]), "arr")

    def np_float64(self, a, kw, node):
        return self.num(self.term(a[0]), self.join_kind(a[0])) if a else K(0.)

    np_float32 = np_float_ = np_float64

    def np_arange(self, a, kw, node):
        return self.b_range(a, kw, node, op="arange")

    def np_flip(self, a, kw, node):
        ax = self.axis_arg(a[1:], kw)
        v = a[0]
        if isinstance(v, Arr):
            return Arr(v.buf, v.path + (("flip", ax),))
        return self.out(self.mkflip(self.term(v), ax), a[:1])

    def np_fliplr(self, a, kw, node):
        return self.np_flip([a[0]], {"axis": K(1)}, node)

    def np_flipud(self, a, kw, node):
        return self.np_flip([a[0]], {"axis": K(0)}, node)

    def np_squeeze(self, a, kw, node):
        return self.viewop("squeeze", a[0])

    def np_transpose(self, a, kw, node):
        if len(a) > 1 or "axes" in kw:
            ax = self.term(a[1] if len(a) > 1 else kw["axes"])
            return self.viewop("transpose", a[0], ax)
        return self.viewop("T", a[0])

    def np_reshape(self, a, kw, node):
        return self.viewop("reshape" + self.order_kw(kw), a[0], *[self.term(x) for x in a[1:]])

    def order_kw(self, kw):
        v = kw.get("order")
        return "" if v is None or v == K("C") else ":" + str(v.val) if isinstance(v, K) else ":?"

    def np_ravel(self, a, kw, node):
        return self.viewop("ravel" + self.order_kw(kw), a[0])

    def np_expand_dims(self, a, kw, node):
        return self.viewop("expand_dims", a[0], self.axis_arg(a[1:], kw))

    def np_swapaxes(self, a, kw, node):
        return self.viewop("swapaxes", a[0], self.term(a[1]), self.term(a[2]))

    def np_moveaxis(self, a, kw, node):
        return self.viewop("moveaxis", a[0], self.term(a[1]), self.term(a[2]))

    def np_broadcast_to(self, a, kw, node):
        return Num(mk("tile", self.term(a[0]), mk("dim", self.term(a[1]), "reps")), "arr")

    def np_tile(self, a, kw, node):
        r = self.term(a[1] if len(a) > 1 else kw["reps"])
        return Num(mk("tile", self.term(a[0]), mk("dim", r, "reps")), "arr")

    def viewop(self, op, v, *extra):
        if isinstance(v, Arr):
            return Arr(v.buf, v.path + ((op,) + extra,))
        t = self.term(v)
        return self.num(mk(op, t, *extra), self.join_kind(v))

    def np_minimum(self, a, kw, node):
        if all(isinstance(x, K) for x in a[:2]):
            return K(min(a[0].val, a[1].val))
        return self.handle_out(kw, self.out(self.minmax("min", [self.term(x) for x in a[:2]]), a[:2]), node)

    def np_maximum(self, a, kw, node):
        if all(isinstance(x, K) for x in a[:2]):
            return K(max(a[0].val, a[1].val))
        return self.handle_out(kw, self.out(self.minmax("max", [self.term(x) for x in a[:2]]), a[:2]), node)

    np_fmin, np_fmax = np_minimum, np_maximum

    def np_clip(self, a, kw, node):
        lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min", NONE))
        hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max", NONE))
        t = self.term(a[0])
        if lo != NONE:
            t = self.minmax("max", [t, self.term(lo)])
        if hi != NONE:
            t = self.minmax("min", [t, self.term(hi)])
        return self.handle_out(kw, self.out(t, a[:1]), node)

    def np_place(self, a, kw, node):
        if isinstance(a[0], Arr):
            v = a[2]
            vt = self.term(v)
            if vt.op == "tup" and len(vt.args) == 1:
                vt = vt.args[0]
            self.write_buf(a[0].buf, a[0].path, self.term(a[1]), vt, node)
        return NONE

    np_putmask = np_place

    def np_copyto(self, a, kw, node):
        if isinstance(a[0], Arr):
            self.write_buf(a[0].buf, a[0].path, self.term(kw["where"]) if "where" in kw else tm.FULL,
                           self.term(a[1]), node)
        return NONE

    def np_isin(self, a, kw, node):
        if isinstance(a[0], K):
            r = self.contains(a[0], a[1] if not isinstance(a[1], K) else Tup([a[1]]), node)
            b = r if isinstance(r, bool) else None
            if b is None:
                return Num(r, "bool")
            return K(b)
        return Num(mk("isin", self.term(a[0]), self.term(a[1])), "arr")

    np_in1d = np_isin

    def np_seterr(self, a, kw, node):
        return Ref(self.new(Dct({})))

    def np_concatenate(self, a, kw, node):
        return Num(mk("concat", self.term(a[0]), self.axis_arg(a[1:], kw)), "arr")

    def np_stack(self, a, kw, node):
        ax = self.axis_arg(a[1:], kw)
        return Num(mk("stack", self.term(a[0]), tm.ZERO if ax is tm.NONE else ax), "arr")

    def np_issubdtype(self, a, kw, node):
        return Num(mk("dim", self.term(a[0]), "issub"), "bool")

    def np_round(self, a, kw, node):
        if isinstance(a[0], K):
            try:
                return K(round(a[0].val, *[x.val for x in a[1:]]))
            except Exception:
                pass
        return self.out(mk("round", *[self.term(x) for x in a]), a[:1])

    np_around = np_round

    def np_trapz(self, a, kw, node):
        x = self.term(a[1]) if len(a) > 1 else self.term(kw["x"]) if "x" in kw else (
            mk("dx", self.term(kw["dx"])) if "dx" in kw else tm.NONE)
        ax = self.term(a[3]) if len(a) > 3 else self.term(kw["axis"]) if "axis" in kw else tm.NONE
        return self.num(mk("trapz", self.term(a[0]), x, ax), "unk")

    np_trapezoid = np_trapz

    def np_diff(self, a, kw, node):
        ex = [mk("kw", k, self.term(v)) for k, v in sorted(kw.items()) if k not in ("axis",)]
        ax = self.term(kw["axis"]) if "axis" in kw else tm.NONE
        return self.num(mk("diff", self.term(a[0]), ax, *ex), "arr")

    def np_char(self, a, kw, node):
        return Num(mk("unk", "char"))

    def np_errstate(self, a, kw, node):
        return Num(mk("unk", "errstate"))

    def np_dot(self, a, kw, node):
        return self.num(mk("dot", self.term(a[0]), self.term(a[1])), "unk")

    def np_size(self, a, kw, node):
        return Num(mk("dim", self.skey(self.term(a[0])), "size"), "scalar")

    def np_shape(self, a, kw, node):
        return self.shape_value(a[0])

    def np_ndim(self, a, kw, node):
        s = self.vshape(a[0])
        if s is not None:
            return K(len(s))
        return Num(mk("dim", self.skey(self.term(a[0])), "ndim"), "scalar")

    def np_random(self, leaf, args, kwargs, node):
        fr = self.frames[-1]
        key = (fr.func, leaf)
        n = fr.randn.get(getattr(node, "lineno", 0))
        if n is None:
            n = len(fr.randn)
            fr.randn[getattr(node, "lineno", 0)] = n
        if leaf in ("seed",):
            return NONE
        return Num(mk("random:" + leaf, mk("rand", fr.func, n), *self.argterms(args, kwargs)), "unk")

    # ---- xarray
    def xr_DataArray(self, a, kw, node):
        d = a[0] if a else kw.get("data", K(0))
        dims = kw.get("dims", a[2] if len(a) > 2 else None)
        dm = None
        if dims is not None:
            its = self.unpack_any(dims)
            if its is None and isinstance(dims, K) and isinstance(dims.val, str):
                its = [dims]
            if its is not None:
                dm = tuple(x.val if isinstance(x, K) else x for x in its)
        elif self.kind_of(d) == "da":
            dm = self.dims_of(d)
        elif self.layout is not None:
            co = kw.get("coords", a[1] if len(a) > 1 else None)
            if isinstance(co, Ref) and isinstance(self.node(co.addr), Dct):
                dm = tuple(self.node(co.addr).items)
        at = kw.get("attrs", a[4] if len(a) > 4 else None)
        if isinstance(at, Ref) and isinstance(self.node(at.addr), Dct):
            at = self.copy_attrs(at.addr)
        else:
            at = self.new(Dct({}))
            if isinstance(d, Ref) and isinstance(self.node(d.addr), DA):
                at = self.copy_attrs(self.node(d.addr).attrs)
        nm = kw.get("name", a[3] if len(a) > 3 else None)
        nm = nm.val if isinstance(nm, K) else None
        if isinstance(d, Arr):
            r = Ref(self.new(DA(d.buf, d.path, at, nm, dm)))
        elif isinstance(d, Ref) and isinstance(self.node(d.addr), DA):
            n = self.node(d.addr)
            r = Ref(self.new(DA(n.buf, n.path, at, nm, dm or n.dims)))
        else:
            r = Ref(self.new_da(self.term(d), at, dm, nm))
        self.event("mkda", node, dims=dims, addr=r.addr)
        return r

    def xr_Dataset(self, a, kw, node):
        r = Ref(self.new(DS({}, self.new(Dct({})), None, None)))
        dv = a[0] if a else kw.get("data_vars")
        co = kw.get("coords", a[1] if len(a) > 1 else None)
        for d in (dv, co):
            if isinstance(d, Ref) and isinstance(self.node(d.addr), Dct):
                for k, v in self.node(d.addr).items.items():
                    self.ds_set(r, k, v, node)
            elif isinstance(d, Ref) and isinstance(self.node(d.addr), DS):
                self.put(r.addr, self.node(d.addr).but())
        return r

    def input_ds(self, label, path):
        src = self.input_src
        src = src + (path,) if src[0] == "lut" else src
        return Ref(self.new(DS({}, self.new(Dct({}, (), ("attr", "<ds>"))), self.input_auto, src)))

    def input_auto(self, name):
        return True

    def file_label(self, v):
        if isinstance(v, K) and isinstance(v.val, str):
            p = v.val
            r = self.repo.root
            if p.startswith(r):
                p = os.path.relpath(p, r)
            return p
        return "<file>"

    def xr_open_dataset(self, a, kw, node):
        v = a[0] if a else kw.get("filename_or_obj", K(None))
        self.event("openfile", node, path=self.file_label(v), abspath=v.val if isinstance(v, K) else None)
        saved = (getattr(self, "files", None) or {}).get(self.skey(self.term(v)))
        if saved is not None:
            return Ref(self.new(self.node(saved).but()))
        r = self.input_ds("in", self.file_label(v))
        for nm, dims in (getattr(self, "file_dims", None) or {}).items():
            a = self.ds_auto(r.addr, nm)
            self.put(a, self.node(a).but(dims=tuple(dims)))
        return r

    xr_open_mfdataset = xr_load_dataset = xr_open_dataset

    def xr_zeros_like(self, a, kw, node):
        return self.da_like(a[0], tm.ZERO)

    def xr_ones_like(self, a, kw, node):
        return self.da_like(a[0], tm.ONE)

    def xr_full_like(self, a, kw, node):
        return self.da_like(a[0], self.term(a[1]))

    def da_like(self, v, t):
        at = self.node(v.addr).attrs if isinstance(v, Ref) and isinstance(self.node(v.addr), DA) else None
        return self.mkda(mk("fill", t, mk("dim", self.skey(self.term(v)), "shape")),
                         self.copy_attrs(at) if at is not None else None, self.dims_of(v))

    def xr_where(self, a, kw, node):
        return self.num(where(self.term(a[0]), self.term(a[1]), self.term(a[2])), "da", self.bdims(*a[:3]))

    def xr_merge(self, a, kw, node):
        r = Ref(self.new(DS({}, self.new(Dct({})), None, None)))
        auto = None
        for s in self.iter_segs(a[0], node):
            v = s[1] if s[0] == "item" else s[2][1]
            if isinstance(v, Ref) and isinstance(self.node(v.addr), DS):
                n = self.node(v.addr)
                auto = auto or n.auto
                m = self.node(r.addr)
                self.put(r.addr, m.but(vars={**m.vars, **n.vars}, auto=auto, src=m.src or n.src, attrs=m.attrs))
        return r

    def xr_concat(self, a, kw, node):
        segs = self.iter_segs(a[0], node)
        return self.num(mk("concat", mk("tup", *[self.seg_term(s) for s in segs]), tm.NONE), "da")

    # ------------------------------------------------------------ methods
    DRAW = frozenset((
        "pcolormesh", "pcolor", "plot", "fill_betweenx", "fill_between", "contourf", "imshow", "scatter",
        "set_xlim", "set_ylim", "set_title", "set_xlabel", "set_ylabel", "set_label", "set_xscale", "set_yscale",
        "invert_yaxis", "colorbar", "savefig", "set_ticks", "set_ticklabels", "text", "set", "axis", "set_inverted",
        "set_clim", "set_xbound", "set_ybound", "semilogx", "semilogy", "loglog", "errorbar", "pcolorfast", "matshow",
        "contour", "suptitle", "update", "setp"))

    def draw(self, recv, name, a, kw, node):
        """a call on a matplotlib object: what it is given, as of now"""
        f = lambda v: v.val if isinstance(v, K) else self.term(v)
        self.event("draw", node, name=name, recv=recv, args=[f(x) for x in a], kw={k: f(v) for k, v in kw.items()})

    def call_method(self, r, name, a, kw, node=None):
        if name in self.DRAW and isinstance(r, (Num, Choice, Arr)):
            self.draw(self.term(r), name, a, kw, node)
        if isinstance(r, Choice):
            return self.fork_value(r.cond, lambda: self.call_method(r.a, name, a, kw, node),
                                   lambda: self.call_method(r.b, name, a, kw, node))
        if isinstance(r, K) and isinstance(r.val, (str, bytes)):
            return self.m_str(r, name, a, kw, node)
        if isinstance(r, Tup):
            if name == "index":
                for i, x in enumerate(r.items):
                    if self.same(x, a[0]) is True:
                        return K(i)
                return Num(mk("unk", "index"), "scalar")
            if name == "count":
                return K(sum(1 for x in r.items if self.same(x, a[0]) is True))
            return Num(mk("m:" + name, self.term(r), *self.argterms(a, kw)))
        if isinstance(r, Ref):
            n = self.node(r.addr)
            if isinstance(n, Dct):
                return self.m_dict(r, n, name, a, kw, node)
            if isinstance(n, Lst):
                return self.m_list(r, n, name, a, kw, node)
            if isinstance(n, St):
                return self.m_set(r, n, name, a, kw, node)
            if isinstance(n, DS):
                return self.m_ds(r, n, name, a, kw, node)
            if isinstance(n, DA):
                return self.m_da(r, n, name, a, kw, node)
        if isinstance(r, ExtM) and r.name in ("__dims__", "__sizes__", "__coords__"):
            if name == "keys" or name == "values" or name == "items":
                return r
            if name == "get":
                return self.dim_size(r.recv, a[0], node)
        if isinstance(r, (SuperV,)):
            return NONE
        return self.m_num(r, name, a, kw, node)

    def m_str(self, r, name, a, kw, node):
        vals = []
        for x in a:
            if isinstance(x, K):
                vals.append(x.val)
            elif isinstance(x, Tup) and all(isinstance(y, K) for y in x.items):
                vals.append(tuple(y.val for y in x.items))
            elif isinstance(x, Ref) and isinstance(self.node(x.addr), (Lst, Dct, St)):
                segs = self.iter_segs(x, node)
                if not all(s[0] == "item" and isinstance(s[1], K) for s in segs):
                    return Num(mk("str", self.term(r), *[self.term(y) for y in a]), "str")
                vals.append([s[1].val for s in segs])
            else:
                return Num(mk("str", self.term(r), *self.argterms(a, kw)), "str")
        if not all(isinstance(x, K) for x in kw.values()):
            return Num(mk("str", self.term(r), *self.argterms(a, kw)), "str")
        try:
            v = getattr(r.val, name)(*vals, **{k: x.val for k, x in kw.items()})
        except Exception as e:
            self.throw(type(e).__name__, str(e), node)
        if isinstance(v, list):
            return self.lst([("item", K(x)) for x in v])
        if isinstance(v, tuple):
            return Tup([K(x) for x in v])
        return K(v)

    def m_dict(self, r, n, name, a, kw, node):
        if name == "keys":
            if n.auto:
                return Num(mk("attrkeys", mk("attr", n.auto[1])))
            return r
        if name == "values":
            return self.lst([("item", v) for v in n.items.values() if v is not UNBOUND] + [("item", v) for _, v in n.extra])
        if name == "items":
            return self.lst([("item", Tup([self.from_py(k), v])) for k, v in n.items.items() if v is not UNBOUND] +
                            [("item", Tup([self.num(k), v])) for k, v in n.extra])
        if name == "get":
            pk = self.pykey(a[0])
            d = a[1] if len(a) > 1 else kw.get("default", NONE)
            if pk is not None:
                if pk[0] in n.items:
                    return n.items[pk[0]]
                if n.auto:
                    return Num(mk(n.auto[0], n.auto[1], str(pk[0])), "str")
                return d
            return Num(mk("dictsel", self.term(a[0]), *[self.term(v) for v in n.items.values()]))
        if name == "setdefault":
            pk = self.pykey(a[0])
            if pk is not None and pk[0] in n.items:
                return n.items[pk[0]]
            v = self.box(a[1]) if len(a) > 1 else NONE
            self.setitem(r, a[0], v, node)
            return v
        if name == "update":
            items, extra = dict(n.items), n.extra
            for x in a:
                if isinstance(x, Ref) and isinstance(self.node(x.addr), Dct):
                    items.update(self.node(x.addr).items)
                    extra = extra + self.node(x.addr).extra
                else:
                    d = self.node(self.dict_from_segs(self.iter_segs(x, node)).addr)
                    items.update(d.items)
            items.update(kw)
            self.put(r.addr, n.but(items=items, extra=extra))
            return NONE
        if name == "pop":
            pk = self.pykey(a[0])
            if pk is not None:
                if pk[0] in n.items:
                    it = dict(n.items)
                    v = it.pop(pk[0])
                    self.put(r.addr, n.but(items=it))
                    return v
                if len(a) > 1:
                    return a[1]
                self.throw("KeyError", pk[0], node)
        if name == "copy":
            return Ref(self.new(n.but()))
        if name == "clear":
            self.put(r.addr, Dct({}))
            return NONE
        if name in ("to", "close"):
            return r
        self.event("unknown_method", node, recv="dict", name=name)
        return Num(mk("m:" + name, self.term(r)))

    def m_list(self, r, n, name, a, kw, node):
        if name == "append":
            self.put(r.addr, Lst(n.segs + (("item", self.box(a[0])),)))
            return NONE
        if name == "extend":
            self.put(r.addr, Lst(n.segs + tuple(self.iter_segs(a[0], node))))
            return NONE
        if name == "insert":
            i = self.concrete_int(a[0])
            s = list(n.segs)
            if i is not None and n.concrete():
                s.insert(i, ("item", self.box(a[1])))
            else:
                s.append(("item", self.box(a[1])))
            self.put(r.addr, Lst(s))
            return NONE
        if name == "pop":
            i = self.concrete_int(a[0]) if a else -1
            if i is not None and n.concrete() and n.segs:
                s = list(n.segs)
                v = s.pop(i)
                self.put(r.addr, Lst(s))
                return v[1]
            return self.num(mk("elem", self.lst_term(n)))
        if name == "remove":
            s = list(n.segs)
            for i, x in enumerate(s):
                if x[0] == "item" and self.same(x[1], a[0]) is True:
                    del s[i]
                    self.put(r.addr, Lst(s))
                    return NONE
            if n.concrete() and all(isinstance(x[1], K) for x in s):
                self.throw("ValueError", "list.remove(x): x not in list", node)
            return NONE
        if name == "index":
            for i, x in enumerate(n.segs):
                if x[0] == "item" and self.same(x[1], a[0]) is True:
                    return K(i)
            if n.concrete() and all(isinstance(x[1], K) for x in n.segs) and isinstance(a[0], K):
                self.throw("ValueError", "%r is not in list" % (a[0].val,), node)
            return Num(mk("unk", "index"), "scalar")
        if name == "count":
            return K(sum(1 for x in n.segs if x[0] == "item" and self.same(x[1], a[0]) is True))
        if name == "copy":
            return Ref(self.new(Lst(n.segs)))
        if name in ("sort", "reverse"):
            if name == "reverse" and n.concrete():
                self.put(r.addr, Lst(tuple(reversed(n.segs))))
            elif name == "sort":
                v = self.b_sorted([r], kw, node)
                self.put(r.addr, self.node(v.addr))
            return NONE
        if name == "clear":
            self.put(r.addr, Lst([]))
            return NONE
        # dask bag idioms: from_sequence() is represented by its list
        if name in ("map", "starmap"):
            f, rest = a[0], list(a[1:])

            def g(x):
                xs = [x] if name == "map" else (list(x.items) if isinstance(x, Tup) else [x])
                return self.call(f, xs + rest, kw, node)
            return self.lst(self.map_segs(g, n.segs))
        if name == "filter":
            return self.b_filter([a[0], r], {}, node)
        if name in ("compute", "persist"):
            return r
        if name == "flatten":
            return r
        self.event("unknown_method", node, recv="list", name=name)
        return Num(mk("m:" + name, self.term(r)))

    def m_set(self, r, n, name, a, kw, node):
        if name == "add":
            if a[0] not in n.items:
                self.put(r.addr, St(n.items + (a[0],)))
            return NONE
        if name in ("union", "update"):
            its = list(n.items)
            for x in a:
                for s in self.iter_segs(x, node):
                    if s[0] == "item" and s[1] not in its:
                        its.append(s[1])
            if name == "update":
                self.put(r.addr, St(its))
                return NONE
            return Ref(self.new(St(its)))
        if name in ("intersection", "difference", "issubset", "issuperset", "isdisjoint"):
            o = [s[1] for x in a for s in self.iter_segs(x, node) if s[0] == "item"]
            if name == "intersection":
                return Ref(self.new(St([x for x in n.items if x in o])))
            if name == "difference":
                return Ref(self.new(St([x for x in n.items if x not in o])))
            if name == "issubset":
                return K(all(x in o for x in n.items))
            if name == "issuperset":
                return K(all(x in n.items for x in o))
            return K(not any(x in o for x in n.items))
        if name in ("discard", "remove"):
            self.put(r.addr, St([x for x in n.items if x != a[0]]))
            return NONE
        if name == "copy":
            return Ref(self.new(St(n.items)))
        return Num(mk("m:" + name, self.term(r)))

    def names_of(self, v, node=None):
        if isinstance(v, K):
            return [v.val]
        out = []
        for s in self.iter_segs(v, node):
            if s[0] == "item" and isinstance(s[1], K):
                out.append(s[1].val)
            elif s[0] == "opt" and isinstance(s[2][1], K):
                out.append(s[2][1].val)
        return out

    def m_ds(self, r, n, name, a, kw, node):
        if self.layout is not None:
            v = self.layout.method(r, n, name, a, kw, node)
            if v is not None:
                return v
        if name == "keys" or name == "to_xarray":
            return r
        if name in ("items", "values"):
            if name == "items":
                return self.lst([("item", Tup([K(k), Ref(x)])) for k, x in n.vars.items()])
            return self.lst([("item", Ref(x)) for k, x in n.vars.items()])
        if name == "get":
            if isinstance(a[0], K) and self.ds_has(n, a[0].val):
                return self.ds_get(r, a[0].val, node)
            return a[1] if len(a) > 1 else NONE
        if name == "copy":
            deep = kw.get("deep", a[0] if a else K(False))
            return Ref(self.ds_copy(r.addr, deep == K(True)))
        if name == "drop_vars" or name == "drop":
            nw = Ref(self.new(n.but()))
            self.ds_drop(nw, self.names_of(a[0], node) if a else [], node)
            self.event("ds_method", node, name=name)
            return nw
        if name == "rename" or name == "rename_vars":
            m = a[0] if a else None
            nw = n.but()
            d = {}
            if isinstance(m, Ref) and isinstance(self.node(m.addr), Dct):
                d = dict(self.node(m.addr).items)
            d.update(kw)
            vs = {}
            ren = {k: v.val for k, v in d.items() if isinstance(v, K)}
            for k, x in nw.vars.items():
                vs[ren.get(k, k)] = x
            return Ref(self.new(nw.but(vars=vs)))
        if name in ("update",):
            x = a[0]
            if isinstance(x, Ref):
                m = self.node(x.addr)
                it = {k: Ref(v) for k, v in m.vars.items()} if isinstance(m, DS) else m.items if isinstance(m, Dct) else {}
                for k, v in it.items():
                    self.ds_set(r, k, v, node)
            return r
        if name in ("assign", "assign_coords", "merge"):
            nw = Ref(self.new(n.but()))
            its = dict(kw)
            if a and isinstance(a[0], Ref) and isinstance(self.node(a[0].addr), Dct):
                its.update(self.node(a[0].addr).items)
            if name == "merge" and a and isinstance(a[0], Ref) and isinstance(self.node(a[0].addr), DS):
                its.update({k: Ref(v) for k, v in self.node(a[0].addr).vars.items()})
            for k, v in its.items():
                if k in ("compat", "join") and name == "merge":
                    continue
                self.ds_set(nw, k, v, node)
            return nw
        if name == "to_netcdf":
            self.event("to_netcdf", node, names=sorted(n.vars), ds=r.addr)
            if getattr(self, "files", None) is not None and (a or "path" in kw):
                self.files[self.skey(self.term(a[0] if a else kw["path"]))] = r.addr
            return NONE
        if name == "close":
            return NONE
        if name == "pop":
            v = self.ds_get(r, a[0].val, node)
            self.ds_drop(r, [a[0].val], node)
            return v
        if name in VALUE_PRESERVING:
            self.event("ds_method", node, name=name, args=list(a), kw=dict(kw))
            return Ref(self.new(n.but()))
        if name in ("mean", "sum", "max", "min", "where", "fillna", "interp", "resample", "reindex"):
            vs = {}
            for k, x in n.vars.items():
                d = self.node(x)
                vs[k] = self.new_da(mk("m:" + name, self.view(d.buf, d.path), *self.argterms(a, kw)),
                                    self.copy_attrs(d.attrs))
            return Ref(self.new(n.but(vars=vs)))
        self.event("unknown_method", node, recv="Dataset", name=name)
        return Ref(self.new(n.but()))

    def ds_copy(self, addr, deep):
        n = self.node(addr)
        vs = {}
        for k, x in n.vars.items():
            d = self.node(x)
            if deep:
                b = self.new(Buf(self.view(d.buf, d.path)))
                vs[k] = self.new(d.but(buf=b, path=(), attrs=self.copy_attrs(d.attrs)))
            else:
                vs[k] = self.new(d.but(attrs=self.copy_attrs(d.attrs)))
        return self.new(n.but(vars=vs, attrs=self.copy_attrs(n.attrs)))

    def m_da(self, r, n, name, a, kw, node):
        t = self.term(r)

        def keep(t2, dims=n.dims):
            return self.mkda(t2, self.copy_attrs(n.attrs), dims)
        if name == "copy":
            deep = kw.get("deep", a[0] if a else K(True))
            data = kw.get("data", a[1] if len(a) > 1 else NONE)
            if data is not NONE and data != NONE:
                return keep(self.term(data))
            if deep == K(False):
                return Ref(self.new(n.but(attrs=self.copy_attrs(n.attrs))))
            return keep(t)
        if name in ("load", "persist", "compute"):
            return r if name == "load" else keep(t)
        if name in ("to_numpy",):
            return Arr(n.buf, n.path)
        if name == "where":
            cd = a[0] if a else kw["cond"]
            other = self.term(a[1]) if len(a) > 1 else self.term(kw["other"]) if "other" in kw else tm.NAN
            if isinstance(cd, (FuncV, BoundV)):
                cd = self.call(cd, [r], {}, node)
            return keep(where(self.term(cd), t, other))
        if name == "fillna":
            return keep(where(mk("isnan", t), self.term(a[0] if a else kw["value"]), t))
        if name in ("isnull", "notnull"):
            x = mk("isnan", t)
            return self.num(x if name == "isnull" else tm.lnot(x), "da", n.dims)
        if name == "astype":
            return keep(self.astype(t, a, kw))
        if name == "clip":
            v = self.np_clip([Num(t, "da")] + list(a), kw, node)
            return keep(self.term(v))
        if name == "round":
            return keep(mk("round", t, *self.argterms(a, kw)))
        if name in REDUCE:
            v = self.reduce(name, Num(t, "da"), a, kw, node)
            return v
        if name == "item":
            return self.num(t, "scalar")
        if name in ("tolist",):
            return Num(t, "arr")
        if name in ("flatten", "ravel"):
            return Num(mk("ravel", t), "arr")
        if name == "transpose":
            ds = [x.val for x in a if isinstance(x, K)]
            t2 = mk("transpose", t, *[self.term(x) for x in a])
            return self.mkda(t2, self.copy_attrs(n.attrs), tuple(ds) if ds and len(ds) == len(a) else None)
        if name in VALUE_PRESERVING:
            if name in ("isel", "sel"):
                if self.layout is not None and n.dims:
                    pos = self.layout.select(n, name, a, kw)
                    if pos is not None:
                        return Ref(self.layout.take(n, pos))
                return self.mkda(mk("m:" + name, t, *self.argterms(a, kw)), self.copy_attrs(n.attrs), None)
            self.event("da_method", node, name=name, args=list(a), kw=dict(kw))
            return self.mkda(t, self.copy_attrs(n.attrs), n.dims if name in ("assign_coords", "drop_vars", "chunk",
                                                                              "assign_attrs") else None)
        if name == "to_dataset":
            return self.input_ds("in", "tmp")
        if name == "get_axis_num":
            if n.dims and isinstance(a[0], K) and a[0].val in n.dims:
                return K(n.dims.index(a[0].val))
            return Num(mk("dim", self.skey(t), ("axis", a[0].val if isinstance(a[0], K) else "?")), "scalar")
        return self.mkda(mk("m:" + name, t, *self.argterms(a, kw)), self.copy_attrs(n.attrs), None)

    def astype(self, t, a, kw):
        d = a[0] if a else kw.get("dtype")
        dn = None
        if isinstance(d, K):
            dn = str(d.val)
        elif isinstance(d, ExtV):
            dn = d.name.split(".")[-1]
        if dn and (dn.startswith("float") or dn in ("f8", "f4", "double", "float_")):
            return t
        if tm.isbool(t) or dn in ("bool",):
            return t
        return mk("astype", t, dn or "?")

    def same_unit(self, a, b):
        """whether two units are one; None: the first is whatever the data declare"""
        if a is None or a.op != "c":
            return None
        if b is None or b.op != "c":
            return False
        x, y = units.unit(a.args[0]), units.unit(b.args[0])
        return a is b or (x is not None and x == y)

    def m_num(self, r, name, a, kw, node):
        t = self.term(r)
        kd = self.kind_of(r)
        if name == "to" or name == "ito":
            u = self.term(a[0]) if a else tm.NONE
            out = Num(mk("to", t, u), "q")
            if isinstance(r, Num) and isinstance(r.meta, tuple) and r.meta[:1] == ("shares",):
                eq = self.same_unit(r.meta[2], u)       # a conversion to the unit it has shares memory
                if name == "ito" and eq is False:
                    ow = self.node(r.meta[1].buf).owner
                    if ow is not None:
                        self.event("mutate", node, owner=ow)
                if eq is not False:
                    out.meta = ("shares", r.meta[1], u)
            return out
        if name in ("m_as",):
            return self.num(mk("mag", mk("to", t, self.term(a[0]))), "unk")
        if name in ("to_base_units", "to_reduced_units"):
            return Num(mk("to", t, c("base")), "q")
        if name == "copy":
            return Num(t, "arr" if kd == "arr" else kd)
        if name == "fillna":
            return self.num(where(mk("isnan", t), self.term(a[0]), t), "da", self.dims_of(r))
        if name == "where":
            cd = a[0] if a else kw["cond"]
            if isinstance(cd, (FuncV, BoundV)):
                cd = self.call(cd, [r], {}, node)
            other = self.term(a[1]) if len(a) > 1 else self.term(kw["other"]) if "other" in kw else tm.NAN
            return self.num(where(self.term(cd), t, other), "da", self.dims_of(r))
        if name in ("isnull", "notnull"):
            x = mk("isnan", t)
            return self.num(x if name == "isnull" else tm.lnot(x), kd)
        if name == "astype":
            return self.num(self.astype(t, a, kw), kd)
        if name in ("flatten",):
            return Num(mk("ravel" + self.order_kw(kw if kw or not a else {"order": a[0]}), t), "arr")
        if name == "clip":
            return self.np_clip([r] + list(a), kw, node)
        if name in ("round",):
            return self.num(mk("round", t, *self.argterms(a, kw)), kd)
        if name in ("squeeze", "ravel", "reshape", "swapaxes"):
            if name == "squeeze" and kd == "da":
                return self.num(t, "da")
            return self.viewop(name + self.order_kw(kw), r, *[self.term(x) for x in a])
        if name == "transpose":
            if not a:
                return self.viewop("T", r)
            return self.viewop("transpose", r, *[self.term(x) for x in a])
        if name in REDUCE:
            return self.reduce(name, r, a, kw, node)
        if name == "item":
            return self.num(t, "scalar")
        if name == "tolist":
            return Num(t, "arr")
        if name == "fill" and isinstance(r, Arr):
            self.write_buf(r.buf, r.path, tm.FULL, self.term(a[0]), node)
            return NONE
        if name == "sort" and isinstance(r, Arr):
            self.write_buf(r.buf, r.path, tm.FULL, mk("np:sort", t), node)
            return NONE
        if name in ("compute", "load", "persist", "close"):
            return r
        if name == "to_xarray":
            if t.op == "lut":
                ds = self.new(DS({}, self.new(Dct({})), lambda nm: True, ("lut",) + t.args))
                return Ref(ds)
            return Num(mk("to_xarray", t))
        if name == "to_numpy":
            return Num(t, "arr")
        if kd == "str":
            return Num(mk("str", t, c(name), *self.argterms(a, kw)), "str" if name not in (
                "startswith", "endswith", "isdigit") else "bool")
        if name in ("set_index", "rename", "reset_index", "dropna"):
            return Num(t, kd)
        self.stats["ext"]["." + name] = self.stats["ext"].get("." + name, 0) + 1
        out = Num(mk("m:" + name, t, *self.argterms(a, kw)), "da" if kd == "da" else "unk")
        if name == "Quantity" and a and isinstance(a[0], Arr):
            out.meta = ("shares", a[0], self.term(a[1]) if len(a) > 1 else None)
        return out

    def deepcopy(self, v, memo=None, shallow=False):
        memo = {} if memo is None else memo
        if isinstance(v, Arr):
            return Arr(self.new(Buf(self.term(v))))
        if isinstance(v, Tup):
            return v if shallow else Tup([self.deepcopy(x, memo) for x in v.items])
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            n = self.node(v.addr)
            f = (lambda x: x) if shallow else (lambda x: self.deepcopy(x, memo))
            if isinstance(n, Obj):
                a = self.new(n)
                memo[v.addr] = Ref(a)
                self.put(a, Obj(n.cls, {k: f(x) for k, x in n.fields.items()}))
                return Ref(a)
            if isinstance(n, Lst):
                r = Ref(self.new(Lst([("item", f(s[1])) if s[0] == "item" else s for s in n.segs])))
            elif isinstance(n, Dct):
                r = Ref(self.new(Dct({k: f(x) for k, x in n.items.items()}, n.extra, n.auto, n.maybe)))
            elif isinstance(n, St):
                r = Ref(self.new(St(n.items)))
            elif isinstance(n, DA):
                r = Ref(self.new_da(self.term(v), self.copy_attrs(n.attrs), n.dims, n.name)) if not shallow else \
                    Ref(self.new(n.but()))
            elif isinstance(n, DS):
                r = Ref(self.ds_copy(v.addr, not shallow))
            else:
                return v
            memo[v.addr] = r
            return r
        return v


def _os_join(s, a, kw, node):
    if all(isinstance(x, K) for x in a):
        return K(os.path.join(*[x.val for x in a]))
    return Num(mk("str", *[s.term(x) for x in a]), "str")


def _os1(f):
    def g(s, a, kw, node):
        if isinstance(a[0], K):
            return K(f(a[0].val))
        return Num(mk("str", s.term(a[0])), "str")
    return g


def _read_csv(s, a, kw, node):
    v = a[0] if a else kw.get("filepath_or_buffer", K(None))
    s.event("openfile", node, path=s.file_label(v), abspath=v.val if isinstance(v, K) else None)
    if getattr(s, "csv_columns", False):
        r = _frame(s, s.file_label(v), kw)
        if r is not None:
            return r
    return Num(mk("lut", s.file_label(v)), "unk")


def _frame(s, f, kw):
    """table columns by position in the file"""
    nm = s.pyval(kw["names"]) if "names" in kw else None
    if not isinstance(nm, (list, tuple)) or not all(isinstance(x, str) for x in nm) or \
            set(kw) - {"names", "sep", "delim_whitespace", "header", "skiprows", "comment", "dtype", "engine"}:
        return None
    if s.pyval(kw["header"]) is not None if "header" in kw else False:
        return None
    vs = {}
    for i, x in enumerate(nm):
        t = mk("lut", f, i)
        vs[x] = s.new(DA(s.new(Buf(t, "col%d" % i)), (), s.new(Dct({})), x, ("index",)))
    return Ref(s.new(DS(vs, s.new(Dct({})), None, None)))


def _read_nc(s, a, kw, node):
    return s.xr_open_dataset(a, kw, node)


def _ident(s, a, kw, node):
    return a[0]


def _partial(s, a, kw, node):
    return Partial(a[0], tuple(a[1:]), dict(kw))


def _copy(s, a, kw, node):
    return s.deepcopy(a[0], shallow=True)


def _deepcopy(s, a, kw, node):
    return s.deepcopy(a[0])


def _from_seq(s, a, kw, node):
    return s.lst(s.iter_segs(a[0], node))


def _none(s, a, kw, node):
    return NONE


def _quantity(s, a, kw, node):
    if len(a) > 1:
        u = a[1]
        return Num(mk("mul", s.term(a[0]), mk("unit", s.term(u) if isinstance(u, K) else s.term(u))), "q")
    return Num(s.term(a[0]), "q")


def _wrf_getvar(s, a, kw, node):
    nm = a[1] if len(a) > 1 else kw.get("varname", K("?"))
    lab = "wrf:%s" % (nm.val if isinstance(nm, K) else "?")
    u = kw.get("units")
    at = s.new(Dct({"units": u} if u is not None else {}, (), ("attr", lab)))
    return Ref(s.new(DA(s.new(Buf(mk("in", lab), "in:" + lab)), (), at, lab)))


EXT = {"os.path.join": _os_join, "os.path.dirname": _os1(os.path.dirname), "os.path.abspath": _os1(lambda p: p),
       "os.path.basename": _os1(os.path.basename), "os.path.realpath": _os1(lambda p: p),
       "os.path.normpath": _os1(os.path.normpath),
       "pandas.read_csv": _read_csv, "pandas.read_table": _read_csv,
       "act.io.arm.read_arm_netcdf": _read_nc, "act.io.armfiles.read_netcdf": _read_nc,
       "functools.partial": _partial, "copy.copy": _copy, "copy.deepcopy": _deepcopy,
       "dask.bag.from_sequence": _from_seq, "warnings.warn": _none, "warnings.filterwarnings": _none,
       "warnings.simplefilter": _none, "wrf.getvar": _wrf_getvar}
