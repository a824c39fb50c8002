"""Transfer functions: operators, builtins, numpy / xarray / pint / pandas / dask / os idioms."""
import operator
import os

from . import terms as tm
from .terms import c, mk, add, sub, mul, div, power, phi, where, idx, store, lt, le, eq
from .values import *  # noqa

_PYBIN = dict(Add=operator.add, Sub=operator.sub, Mult=operator.mul, Div=operator.truediv, FloorDiv=operator.floordiv,
              Mod=operator.mod, Pow=operator.pow, BitAnd=operator.and_, BitOr=operator.or_, BitXor=operator.xor,
              LShift=operator.lshift, RShift=operator.rshift, MatMult=operator.matmul)
_PYCMP = dict(Eq=operator.eq, NotEq=operator.ne, Lt=operator.lt, LtE=operator.le, Gt=operator.gt, GtE=operator.ge)

BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "print", "isinstance", "issubclass", "str", "int",
            "float", "bool", "list", "dict", "tuple", "set", "frozenset", "sorted", "reversed", "min", "max", "sum",
            "abs", "round", "any", "all", "getattr", "setattr", "hasattr", "type", "object", "super", "callable",
            "iter", "next", "id", "repr", "slice", "property", "staticmethod", "classmethod", "open", "vars", "pow",
            "divmod", "complex", "bytes", "ord", "chr", "dir", "eval", "exec", "input", "format", "hash", "delattr",
            "globals", "locals", "NotImplemented", "Ellipsis", "__name__", "__file__",
            "Exception", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NameError",
            "RuntimeError", "NotImplementedError", "ImportError", "ModuleNotFoundError", "OSError", "IOError",
            "FileNotFoundError", "ZeroDivisionError", "StopIteration", "ArithmeticError", "LookupError",
            "AssertionError", "UserWarning", "DeprecationWarning", "RuntimeWarning", "Warning", "FutureWarning",
            "UnboundLocalError", "BaseException", "KeyboardInterrupt", "PermissionError", "OverflowError",
            "FloatingPointError"}

ELEM1 = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "arctan", "arccos", "arcsin", "floor",
         "ceil", "sign", "isinf", "isneginf", "isposinf", "deg2rad", "rad2deg", "sinh", "cosh", "tanh", "real", "imag",
         "conj", "rint", "trunc", "signbit"}
ARR_OUT = {"where", "tile", "stack", "concatenate", "hstack", "vstack", "repeat", "argwhere", "meshgrid", "interp",
           "linspace", "trapz", "array", "isin", "unique", "dstack", "column_stack", "broadcast_to", "reshape",
           "moveaxis", "swapaxes", "digitize", "histogram", "searchsorted", "diff", "polyval", "full", "insert",
           "append", "delete", "pad", "roll", "argsort", "sort", "take", "take_along_axis", "ravel"}
REDUCE = {"sum", "mean", "max", "min", "std", "var", "prod", "any", "all", "nansum", "nanmean", "nanmax", "nanmin",
          "nanstd", "median", "nanmedian", "argmax", "argmin", "nanargmax", "nanargmin", "count", "cumsum", "cumprod",
          "nancumsum", "amax", "amin", "percentile", "quantile", "count_nonzero", "nanprod", "nanpercentile",
          "nancumprod", "ptp", "trapezoid"}
SAMESHAPE_METHODS = {"isel", "sel", "transpose", "rename", "assign_coords", "squeeze", "stack", "unstack", "load",
                     "persist", "drop_vars", "expand_dims", "swap_dims", "set_index", "reset_index", "reset_coords",
                     "chunk", "assign_attrs", "reset_index", "dropna", "sortby", "broadcast_like", "drop", "pipe",
                     "interp", "reindex", "head", "tail", "set_coords", "rename_vars", "rename_dims", "drop_dims",
                     "drop_sel", "thin", "as_numpy"}
VALUE_PRESERVING = {"isel", "sel", "transpose", "rename", "assign_coords", "squeeze", "stack", "unstack", "load",
                    "persist", "drop_vars", "expand_dims", "swap_dims", "set_index", "reset_index", "reset_coords",
                    "chunk", "assign_attrs", "drop", "set_coords", "rename_vars", "rename_dims", "drop_dims",
                    "as_numpy", "compute"}


def may_name(t, name):
    """whether the text a term formats can be this name"""
    p = t.args[0] if t.op == "fmt" and len(t.args) == 2 else None
    p = p.args[0] if p is not None and p.op == "c" else None
    if isinstance(p, str) and isinstance(name, str) and "%" in p and "%(" not in p:
        import re
        parts = re.split(r"%[-+ #0-9.]*[a-zA-Z%]", p)
        return re.fullmatch("(.*)".join(re.escape(x) for x in parts), name, re.S) is not None
    return True


class Lib:
    # ------------------------------------------------------------ set-up
    def setup(self):
        self.input_src = ("in",)
        self.ds_dim_names = {}
        self.union_warn = 0

    # ------------------------------------------------------------ conversions
    def num(self, t, kind="unk", meta=None):
        if t.op == "c" and kind != "da":
            return K(t.args[0])
        return Num(t, kind, meta)

    def from_py(self, v):
        if isinstance(v, V):
            return v
        if isinstance(v, tuple):
            return Tup([self.from_py(x) for x in v])
        return K(v)

    def kind_of(self, v):
        if isinstance(v, K):
            if isinstance(v.val, bool):
                return "bool"
            return "str" if isinstance(v.val, str) else "scalar"
        if isinstance(v, Num):
            return v.kind
        if isinstance(v, Arr):
            return "arr"
        if isinstance(v, Ref) and isinstance(self.node(v.addr), DA):
            return "da"
        if isinstance(v, Ref) and isinstance(self.node(v.addr), Lst):
            return "arr"
        return "unk"

    def join_kind(self, *vs):
        ks = [self.kind_of(v) for v in vs]
        if "q" in ks:
            return "q"
        if "da" in ks:
            return "da"
        if "unk" in ks:
            return "unk" if "arr" not in ks else "arr"
        if "arr" in ks:
            return "arr"
        return "scalar"

    def view(self, buf, path):
        n = self.node(buf)
        t = n.term
        for p in path:
            t = self.apply_view(t, p)
        return t

    def apply_view(self, t, p):
        if p[0] == "idx":
            return self.mkidx(t, p[1])
        if p[0] == "flip":
            return self.mkflip(t, p[1])
        return mk(p[0], t, *p[1:])

    def mkflip(self, t, ax):
        if t.op == "flip" and t.args[1] is ax:
            return t.args[0]
        if t.op == "fill":
            return t
        return mk("flip", t, ax)

    def mkidx(self, t, k):
        # a[:, ::-1] is a flip
        rev = mk("slice", tm.NONE, tm.NONE, c(-1))
        if k is rev:
            return self.mkflip(t, c(0))
        if k.op == "tup" and any(x is rev for x in k.args) and all(x is rev or tm.isfull(x) for x in k.args):
            for i, x in enumerate(k.args):
                if x is rev:
                    if k.args[0].op == "c" and k.args[0].args[0] is Ellipsis:
                        t = self.mkflip(t, c(i - len(k.args)))
                    else:
                        t = self.mkflip(t, c(i))
            return t
        return idx(t, k)

    def wstore(self, t, path, k, v):
        if not path:
            return store(t, k, v)
        p = path[0]
        inner = self.apply_view(t, p)
        ni = self.wstore(inner, path[1:], k, v)
        if p[0] == "idx":
            return store(t, p[1], ni)
        if p[0] == "flip":
            return self.mkflip(ni, p[1])
        return mk("un" + p[0], ni)

    def term(self, v):
        if isinstance(v, Num):
            return v.term
        if isinstance(v, K):
            return c(v.val)
        if isinstance(v, Arr):
            return self.view(v.buf, v.path)
        if isinstance(v, Tup):
            return mk("tup", *[self.term(x) for x in v.items])
        if isinstance(v, Slice):
            return mk("slice", self.term(v.a), self.term(v.b), self.term(v.c))
        if isinstance(v, Choice):
            return phi(v.cond, self.term(v.a), self.term(v.b))
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, DA):
                return self.view(n.buf, n.path)
            if isinstance(n, Lst):
                return self.lst_term(n)
            if isinstance(n, Dct):
                return mk("dict", *[x for k, w in n.items.items() for x in (self.kterm(k), self.term(w))] +
                          [x for k, w in n.extra for x in (k, self.term(w))])
            if isinstance(n, St):
                return mk("set", *[self.term(x) for x in n.items])
            if isinstance(n, DS):
                return mk("dsobj", *[self.term(Ref(a)) for k, a in sorted(n.vars.items())]) if len(n.vars) < 60 else \
                    mk("dsobj")
            if isinstance(n, Obj):
                return mk("obj", n.cls.name)
        if isinstance(v, ExtV):
            return mk("ext", v.name)
        if isinstance(v, ExtM):
            return mk("extm", self.term(v.recv), v.name)
        if isinstance(v, FuncV):
            return mk("fn", v.qual, getattr(v.node, "lineno", 0))
        if isinstance(v, (BoundV,)):
            return mk("fn", v.func.qual, 0)
        if isinstance(v, Partial):
            return mk("partial", self.term(v.f), *[self.term(a) for a in v.args])
        if isinstance(v, ClassV):
            return mk("cls", v.name)
        if isinstance(v, ModV):
            return mk("mod", v.name)
        return mk("unk", "value")

    def kterm(self, k):
        if isinstance(k, tuple):
            return mk("tup", *[self.kterm(x) for x in k])
        if isinstance(k, V):
            return self.term(k)
        return c(k)

    def lst_term(self, n):
        out = []
        for s in n.segs:
            out.append(self.seg_term(s))
        return mk("tup", *out)

    def seg_term(self, s):
        if s[0] == "item":
            return self.term(s[1])
        if s[0] == "opt":
            return mk("opt_item", s[1], self.seg_term(s[2]))
        v, sym = self.flat_gen(s)
        if v is not None:
            t = self.term(v)
            syms, x, bs = [], s, []
            while x[0] == "gen":
                syms.append(x[2])
                x = x[1][0]
            for sym in reversed(syms):
                if sym is not None:
                    b = tm.binder([t] + [mk("last", t, tm.NONE, y) for y in bs], sym)
                    t = tm.subst(t, b)
                    bs.append(b[sym])
            return mk("map", t, self.dom_term(s), *bs)
        ts = [self.seg_term(x) for x in s[1]]
        if s[2] is not None:
            b = tm.binder(ts, s[2])
            ts = [tm.subst(t, b) for t in ts]
        return mk("map", *ts)

    def dom_term(self, s):
        """length of a generic list segment"""
        ds = []
        while s[0] == "gen":
            d = s[3]
            if isinstance(d, tm.T) and d.op == "range":
                a, b, st = d.args
                ds.append(add(b, mul(c(-1), a)) if st is tm.ONE else d)
            elif isinstance(d, tm.T):
                ds.append(d)
            elif isinstance(d, tuple):
                ds.append(mk("while", *[x for x in d[1:2] if isinstance(x, tm.T)]))
            else:
                ds.append(mk("dom?"))
            if len(s[1]) != 1:
                break
            s = s[1][0]
        return mk("dom", *ds)

    def argterms(self, args, kwargs):
        out = [self.term(a) for a in args]
        for k in sorted(kwargs):
            out.append(mk("kw", k, self.term(kwargs[k])))
        return out

    def new_da(self, t, attrs=None, dims=None, name=None, owner=None):
        b = self.new(Buf(t, owner))
        at = attrs if attrs is not None else self.new(Dct({}))
        return self.new(DA(b, (), at, name, dims))

    def mkda(self, t, attrs=None, dims=None):
        return Ref(self.new_da(t, attrs, dims))

    def copy_attrs(self, a):
        n = self.node(a)
        return self.new(n.but()) if n is not None else self.new(Dct({}))

    # ------------------------------------------------------------ builtins
    def builtin(self, name):
        if name in ("True", "False", "None"):
            return K({"True": True, "False": False, "None": None}[name])
        if name in BUILTINS:
            if name == "Ellipsis":
                return K(Ellipsis)
            return ExtV("builtins." + name)
        import builtins
        if hasattr(builtins, name):
            return ExtV("builtins." + name)
        return None

    # ------------------------------------------------------------ operators
    def unop(self, op, v, node):
        if op == "Not":
            t = self.truth(v)
            if isinstance(t, bool):
                return K(not t)
            return Num(tm.lnot(t), "bool")
        if isinstance(v, K):
            try:
                return K({"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](v.val))
            except Exception:
                self.throw("TypeError", "bad operand for %s" % op, node)
        t = self.term(v)
        kd = self.join_kind(v)
        if op == "USub":
            return self.num(tm.neg(t), kd)
        if op == "Invert":
            return self.num(tm.lnot(t), kd)
        return self.num(t, kd)

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.node(v.addr), Lst)

    def binop(self, op, a, b, node):
        if isinstance(a, Choice) and not isinstance(a, Num):
            if not all(isinstance(x, (K, Num, Arr)) for x in (a.a, a.b)):
                return self.fork_value(a.cond, lambda: self.binop(op, a.a, b, node),
                                       lambda: self.binop(op, a.b, b, node))
        if isinstance(b, Choice):
            if not all(isinstance(x, (K, Num, Arr)) for x in (b.a, b.b)):
                return self.fork_value(b.cond, lambda: self.binop(op, a, b.a, node),
                                       lambda: self.binop(op, a, b.b, node))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(_PYBIN[op](a.val, b.val))
            except ZeroDivisionError:
                return Num(mk("div0", c(a.val)), "scalar")
            except Exception:
                self.throw("TypeError", "unsupported operand types for %s: %r, %r" % (op, a.val, b.val), node)
        if op == "Mod" and isinstance(a, K) and isinstance(a.val, str):
            if isinstance(b, Tup) and all(isinstance(x, K) for x in b.items):
                try:
                    return K(a.val % tuple(x.val for x in b.items))
                except Exception:
                    pass
            return Num(mk("fmt", c(a.val), self.term(b)), "str")
        if op == "Add":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if self.is_list(a) and self.is_list(b):
                r = Ref(self.new(Lst(self.node(a.addr).segs + self.node(b.addr).segs)))
                self.concat[r.addr] = (a.addr, b.addr)
                return r
            if self.kind_of(a) == "str" or self.kind_of(b) == "str":
                return Num(mk("str", self.term(a), self.term(b)), "str")
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and isinstance(y, K) and isinstance(y.val, int):
                    return Tup(x.items * y.val)
                if self.is_list(x) and isinstance(y, K) and isinstance(y.val, int) and y.val <= 64:
                    return Ref(self.new(Lst(self.node(x.addr).segs * y.val)))
                if self.is_list(x) and self.kind_of(y) == "scalar" and not isinstance(y, K):
                    return Ref(self.new(Lst([("gen", self.node(x.addr).segs, None, self.term(y))])))
        if isinstance(a, Ref) and isinstance(b, Ref):
            na, nb = self.node(a.addr), self.node(b.addr)
            if isinstance(na, St) and isinstance(nb, St):
                A, B = list(na.items), list(nb.items)
                if op == "BitOr":
                    r = A + [x for x in B if x not in A]
                elif op == "BitAnd":
                    r = [x for x in A if x in B]
                elif op == "Sub":
                    r = [x for x in A if x not in B]
                else:
                    r = [x for x in A if x not in B] + [x for x in B if x not in A]
                return Ref(self.new(St(r)))
            if isinstance(na, Dct) and isinstance(nb, Dct) and op == "BitOr":
                return Ref(self.new(Dct({**na.items, **nb.items}, na.extra + nb.extra)))
        for x in (a, b):
            if isinstance(x, K) and x.val is None:
                self.throw("TypeError", "unsupported operand None for %s" % op, node)
        ta, tb = self.term(a), self.term(b)
        kd = self.join_kind(a, b)
        return self.num(self.arith(op, ta, tb), kd, self.bdims(a, b) if kd == "da" else None)

    def bdims(self, *vs):
        best = None
        for v in vs:
            d = self.dims_of(v)
            if d and (best is None or len(d) > len(best)):
                best = d
        return best

    def dims_of(self, v):
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, DA):
                return n.dims
        if isinstance(v, Num) and v.kind == "da":
            return v.meta
        return None

    def arith(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "BitAnd":
            return tm.land(a, b)
        if op == "BitOr":
            return tm.lor(a, b)
        if op == "FloorDiv":
            return mk("floordiv", a, b)
        if op == "Mod":
            return mk("mod", a, b)
        return mk(op.lower(), a, b)

    def inplace(self, op, cur, r, node):
        if self.is_list(cur) and op == "Add":
            n = self.node(cur.addr)
            self.put(cur.addr, Lst(list(n.segs) + list(self.iter_segs(r, node))))
            return cur
        if isinstance(cur, Ref) and isinstance(self.node(cur.addr), Dct) and op == "BitOr":
            self.call_method(cur, "update", [r], {}, node)
            return cur
        if isinstance(cur, Arr):
            t = self.arith(op, self.term(cur), self.term(r))
            if self.kind_of(r) == "da":
                return Num(t, "da", self.dims_of(r))
            self.write_buf(cur.buf, cur.path, tm.FULL, t, node)
            return cur
        if isinstance(cur, Ref) and isinstance(self.node(cur.addr), DA):
            n = self.node(cur.addr)
            t = self.arith(op, self.term(cur), self.term(r))
            self.write_buf(n.buf, n.path, tm.FULL, t, node)
            return cur
        return self.binop(op, cur, r, node)

    def write_buf(self, buf, path, key, val, node):
        n = self.node(buf)
        if n is None:
            return
        nt = self.wstore(n.term, path, key, val)
        if n.owner is not None:
            self.event("mutate", node, owner=n.owner)
        self.put(buf, Buf(nt, n.owner))

    def compare(self, op, a, b, node):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            if isinstance(r, bool):
                return K(r if op == "Is" else not r)
            return Num(r if op == "Is" else tm.lnot(r), "bool")
        if op in ("In", "NotIn"):
            r = self.contains(a, b, node)
            if isinstance(r, bool):
                return K(r if op == "In" else not r)
            return Num(r if op == "In" else tm.lnot(r), "bool")
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K(bool(_PYCMP[op](a.val, b.val)))
            except TypeError:
                self.throw("TypeError", "cannot compare %r and %r" % (a.val, b.val), node)
        if op in ("Eq", "NotEq"):
            r = self.same(a, b)
            if isinstance(r, bool):
                return K(r if op == "Eq" else not r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Choice) and not isinstance(y, Choice):
                if x is a:
                    return self.fork_value(x.cond, lambda: self.compare(op, x.a, y, node),
                                           lambda: self.compare(op, x.b, y, node))
                return self.fork_value(x.cond, lambda: self.compare(op, y, x.a, node),
                                       lambda: self.compare(op, y, x.b, node))
        ta, tb = self.term(a), self.term(b)
        # comparison of a gate over constants with a constant folds through the gate
        t = self.cmpterm(op, ta, tb)
        if t.op == "c":
            return K(t.args[0])
        kd = self.join_kind(a, b)
        return Num(t, "bool" if kd in ("scalar", "str") else kd, self.bdims(a, b) if kd == "da" else None)

    def cmpterm(self, op, ta, tb):
        for x, y, sw in ((ta, tb, False), (tb, ta, True)):
            if x.op == "phi" and y.op == "c" and self.phi_consts(x):
                f = (lambda u: self.cmpterm(op, y, u)) if sw else (lambda u: self.cmpterm(op, u, y))
                a, b = f(x.args[1]), f(x.args[2])
                cd = x.args[0]
                return tm.lor(tm.land(cd, a), tm.land(tm.lnot(cd), b))
        if op == "Eq":
            return eq(ta, tb)
        if op == "NotEq":
            return tm.ne(ta, tb)
        if op == "Lt":
            return lt(ta, tb)
        if op == "Gt":
            return lt(tb, ta)
        if op == "LtE":
            return le(ta, tb)
        return le(tb, ta)

    def phi_consts(self, t):
        if t.op == "c":
            return True
        return t.op == "phi" and self.phi_consts(t.args[1]) and self.phi_consts(t.args[2])

    def is_same(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and (y.val is None or isinstance(y.val, bool)):
                if isinstance(x, K):
                    return x.val is y.val
                if isinstance(x, Choice):
                    p, q = self.is_same(x.a, y), self.is_same(x.b, y)
                    if p is q and isinstance(p, bool):
                        return p
                    tp = c(p) if isinstance(p, bool) else p
                    tq = c(q) if isinstance(q, bool) else q
                    return tm.lor(tm.land(x.cond, tp), tm.land(tm.lnot(x.cond), tq))
                if isinstance(x, Num):
                    t = x.term
                    if t.op == "phi":
                        r = self.phi_is(t, y.val)
                        return r
                    if t.op in ("opt", "unk", "mu"):
                        return mk("eq", t, c(y.val)) if y.val is not None else (
                            False if t.op != "unk" else mk("isnone", t))
                    return False
                return False
        if isinstance(a, K) and isinstance(b, K):
            return a == b
        if type(a) is not type(b):
            return False
        return a == b

    def phi_is(self, t, val):
        def rec(x):
            if x.op == "phi":
                a, b = rec(x.args[1]), rec(x.args[2])
                return tm.lor(tm.land(x.args[0], a), tm.land(tm.lnot(x.args[0]), b))
            if x.op == "c":
                return c(x.args[0] is val)
            return tm.FALSE
        r = rec(t)
        return bool(r.args[0]) if r.op == "c" else r

    def same(self, a, b):
        """decided equality of structured values, or None"""
        if isinstance(a, (Tup,)) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.same(x, y) for x, y in zip(a.items, b.items)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if isinstance(a, K) and isinstance(b, K):
            return a.val == b.val
        if self.is_list(a) and self.is_list(b):
            x, y = self.node(a.addr), self.node(b.addr)
            if x.concrete() and y.concrete():
                return self.same(Tup(x.items()), Tup(y.items()))
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and (x.val is None or isinstance(x.val, (str, bool))):
                if isinstance(y, (Arr, Tup)) or self.is_list(y) or isinstance(y, (FuncV, BoundV, ClassV, ModV)):
                    return False if not isinstance(y, Arr) else None
                if isinstance(y, Ref):
                    n = self.node(y.addr)
                    if isinstance(n, (Dct, St, DS, Obj)):
                        return False
                if x.val is None and isinstance(y, Num):
                    r = self.is_same(y, x)
                    return r if isinstance(r, bool) else None
        if isinstance(a, (ClassV, FuncV, ExtV)) and type(a) is type(b):
            return a == b
        return None

    def ds_has(self, n, name):
        if name in n.vars:
            return True
        if name in n.dropped:
            return False
        if name in n.coords:
            return True
        if n.auto is not None:
            return bool(n.auto(name))
        return False

    def contains(self, a, b, node):
        if isinstance(b, Choice):
            p, q = self.contains(a, b.a, node), self.contains(a, b.b, node)
            tp = c(p) if isinstance(p, bool) else p
            tq = c(q) if isinstance(q, bool) else q
            r = tm.lor(tm.land(b.cond, tp), tm.land(tm.lnot(b.cond), tq))
            return bool(r.args[0]) if r.op == "c" else r
        if isinstance(b, K) and isinstance(b.val, str):
            if isinstance(a, K):
                return a.val in b.val
            return mk("contains", self.term(b), self.term(a))
        if isinstance(b, K) and b.val is None:
            self.throw("TypeError", "argument of type NoneType is not iterable", node)
        pk = self.pykey(a)
        if isinstance(b, Ref):
            n = self.node(b.addr)
            if b.addr in self.keyviews:
                # a dataset's keys() iterates its data variables but holds its coordinates too
                return self.contains(a, self.keyviews[b.addr], node)
            if isinstance(n, Dct):
                if pk is not None:
                    if pk[0] in n.items:
                        return True if pk[0] not in n.maybe else True
                    if n.auto:
                        return mk("contains", mk("attr", n.auto[1]), c(pk[0]) if not isinstance(pk[0], tuple) else
                                  self.term(a))
                    return False if not n.extra else mk("contains", self.term(b), self.term(a))
            if isinstance(n, DS):
                if isinstance(a, K):
                    return self.ds_has(n, a.val)
                return mk("contains", mk("dsnames"), self.term(a))
            if isinstance(n, St):
                if isinstance(a, K) and all(isinstance(x, (K, Tup)) for x in n.items):
                    return a in n.items
            if isinstance(n, Lst) and n.concrete():
                b = Tup(n.items())
        if isinstance(b, Tup):
            rs = []
            for x in b.items:
                r = self.same(a, x)
                if r is True:
                    return True
                if r is None:
                    rs.append(x)
            if not rs:
                return False
            return tm.lor(*[eq(self.term(a), self.term(x)) for x in rs])
        if isinstance(b, ExtM) and b.name == "__dims__":
            return self.dims_has(b.recv, a)
        if isinstance(b, ExtM) and b.name == "__coords__" and isinstance(a, K):
            r = self.ds_coords_hook(b.recv, a.val)
            if r is not None:
                return r
        return mk("contains", self.term(b), self.term(a))

    # ------------------------------------------------------------ iteration
    def iter_segs(self, v, node=None):
        if isinstance(v, Choice):
            return [("opt", v.cond, s) if s[0] != "gen" else s for s in self.iter_segs(v.a, node)] + \
                   [("opt", tm.lnot(v.cond), s) if s[0] != "gen" else s for s in self.iter_segs(v.b, node)]
        if isinstance(v, Tup):
            return [("item", x) for x in v.items]
        if isinstance(v, K):
            if isinstance(v.val, str):
                return [("item", K(ch)) for ch in v.val]
            self.throw("TypeError", "%r object is not iterable" % type(v.val).__name__, node)
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Lst):
                return list(n.segs)
            if isinstance(n, Dct):
                return [("item", self.from_py(k)) for k in n.items] + [("item", self.num(k)) for k, _ in n.extra]
            if isinstance(n, St):
                return [("item", x) for x in n.items]
            if isinstance(n, DS):
                return [("item", K(k)) for k in (n.vars if self.layout is None else self.layout.keys(n))]
            if isinstance(n, Obj):
                return [("gen", (("item", Num(mk("unk", "iter"))),), None, None)]
        if isinstance(v, ExtM) and v.name == "__dims__":
            return [("item", K(d)) for d in self.dims_list(v.recv)]
        t = self.term(v)
        if t.op in ("range", "arange"):
            a, b, s = t.args
            if all(tm.isnum(x) for x in t.args) and s.args[0] != 0:
                vals = []
                x = a.args[0]
                while (x < b.args[0]) if s.args[0] > 0 else (x > b.args[0]):
                    vals.append(x)
                    x += s.args[0]
                    if len(vals) > 64:
                        break
                if len(vals) <= 64:
                    return [("item", K(x)) for x in vals]
            sy = self.gix()
            return [("gen", (("item", self.num(add(a, mul(s, sy)), "scalar")),), sy, mk("range", a, b, s))]
        if t.op == "tup" and all(x.op != "map" for x in t.args):
            return [("item", self.num(x)) for x in t.args]
        sy = self.gix()
        return [("gen", (("item", self.num(idx(t, sy), "unk")),), sy, mk("range", tm.ZERO, mk("dim", self.skey(t), 0),
                                                                          tm.ONE))]

    def zip_segs(self, lists, node):
        if all(all(s[0] == "item" for s in l) for l in lists):
            n = min(len(l) for l in lists) if lists else 0
            return [("item", Tup([l[i][1] for l in lists])) for i in range(n)]
        if any(len(l) == 1 and l[0][0] == "gen" for l in lists):
            sy = self.gix()
            els = []
            dom = None
            for l in lists:
                if len(l) == 1 and l[0][0] == "gen":
                    els.append(self.gen_elem(l[0], sy))
                    dom = dom or l[0][3]
                else:
                    t = mk("tup", *[self.seg_term(s) for s in l])
                    els.append(self.num(idx(t, sy)))
            return [("gen", (("item", Tup([self._freeze(e) for e in els])),), sy, dom)]
        els = [Num(mk("elem", *[self.seg_term(s) for s in l])) for l in lists]
        return [("gen", (("item", Tup(els)),), self.gix(), None)]

    def map_segs(self, f, segs):
        out = []
        for s in segs:
            if s[0] == "item":
                out.append(("item", self.box(f(s[1]))))
            elif s[0] == "opt":
                out.append(("opt", s[1], ("item", self.box(f(s[2][1])))))
            else:
                sy = self.gix()
                self.loop_depth += 1
                try:
                    r = f(self.gen_elem(s, sy))
                    r = self._freeze(self.box(r))
                finally:
                    self.loop_depth -= 1
                # keep the nest of domains, replace the element
                out.append(self.regen(s, r, sy))
        return out

    def regen(self, s, r, sy):
        if len(s[1]) == 1 and s[1][0][0] == "gen":
            return ("gen", (self.regen(s[1][0], r, sy),), s[2], s[3])
        return ("gen", (("item", r),), sy, s[3])

    def lst(self, segs):
        return Ref(self.new(Lst(segs)))

    # ------------------------------------------------------------ attributes
    def ext_attr(self, v, name):
        full = v.name + "." + name
        if v.name in ("numpy", "math"):
            import math
            k = {"pi": math.pi, "e": math.e, "inf": float("inf"), "newaxis": None, "nan": float("nan")}
            if name in k:
                if name == "nan":
                    return Num(tm.NAN, "scalar")
                return K(k[name])
        return ExtV(full)

    def getattr(self, o, name, node=None):
        if isinstance(o, Choice):
            return self.fork_value(o.cond, lambda: self.getattr(o.a, name, node),
                                   lambda: self.getattr(o.b, name, node))
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, ModV):
            return self.attr_of_module(o, name, node)
        if isinstance(o, ClassV):
            v, k = o.find(name)
            if v is None:
                if name in ("__name__", "__qualname__"):
                    return K(o.name)
                if any(isinstance(b, ExtV) for kk in o.mro() for b in kk.bases):
                    return ExtM(o, name)
                self.throw("AttributeError", "%s.%s" % (o.name, name), node)
            return v
        if isinstance(o, SuperV):
            return self.getattr_super(o, name, node)
        if isinstance(o, Tup) or isinstance(o, Slice):
            return ExtM(o, name)
        if isinstance(o, (FuncV, BoundV)):
            if name in ("__name__", "__qualname__"):
                f = o.func if isinstance(o, BoundV) else o
                return K(f.name)
            return ExtM(o, name)
        if isinstance(o, K):
            if o.val is None:
                self.throw("AttributeError", "None has no attribute %s" % name, node)
            if isinstance(o.val, (int, float)):
                if name == "real" or name == "magnitude" or name == "values":
                    return o
                if name == "imag":
                    return K(0)
                if not hasattr(o.val, name) and name not in ("to", "units", "astype", "fillna", "item", "shape", "ndim",
                                                             "size", "dims", "dtype"):
                    self.throw("AttributeError", "%s has no attribute %s" % (type(o.val).__name__, name), node)
            elif not hasattr(o.val, name):
                self.throw("AttributeError", "%s has no attribute %s" % (type(o.val).__name__, name), node)
            return ExtM(o, name)
        if isinstance(o, Ref):
            n = self.node(o.addr)
            if isinstance(n, Obj):
                return self.getattr_obj(o, n, name, node)
            if isinstance(n, DS):
                return self.getattr_ds(o, n, name, node)
            if isinstance(n, DA):
                return self.getattr_da(o, n, name, node)
            return ExtM(o, name)
        return self.getattr_num(o, name, node)

    def getattr_super(self, s, name, node):
        if s.self_ is None:
            return ExtM(s, name)
        n = self.node(s.self_.addr)
        mro = n.cls.mro()
        i = mro.index(s.cls) if s.cls in mro else -1
        for k in mro[i + 1:]:
            if name in k.attrs:
                v = k.attrs[name]
                if isinstance(v, FuncV):
                    return v if v.kind == "staticmethod" else BoundV(v, s.self_)
                if isinstance(v, PropV):
                    return self.call_func(v.get, [s.self_], {}, node)
                return v
        if name == "__init__":
            return ExtV("builtins.noop")
        return ExtM(s, name)

    def getattr_obj(self, o, n, name, node):
        if name in n.fields and n.fields[name] is not UNBOUND:
            return self.resolve(n.fields[name])
        v, k = n.cls.find(name)
        if v is not None:
            if isinstance(v, FuncV):
                if v.kind == "staticmethod":
                    return v
                if v.kind == "classmethod":
                    return BoundV(v, n.cls)
                return BoundV(v, o)
            if isinstance(v, PropV):
                return self.call_func(v.get, [o], {}, node)
            return v
        if name == "__class__":
            return n.cls
        if name == "__dict__":
            return Ref(self.new(Dct(dict(n.fields))))
        g, _ = n.cls.find("__getattr__")
        if g is not None:
            return self.call_func(g, [o, K(name)], {}, node)
        if any(isinstance(b, ExtV) and b.name != "builtins.object" for kk in n.cls.mro() for b in kk.bases):
            return ExtM(o, name)
        self.throw("AttributeError", "%s object has no attribute %s" % (n.cls.name, name), node)

    def getattr_ds(self, o, n, name, node):
        if name == "attrs":
            return Ref(n.attrs)
        if name in ("dims", "sizes"):
            return ExtM(o, "__dims__")
        if name in ("variables", "data_vars"):
            return o
        if name == "coords":
            return ExtM(o, "__coords__")
        if name in DS_METHODS:
            return ExtM(o, name)
        if self.ds_has(n, name):
            return self.ds_get(o, name, node)
        if name in ("indexes", "nbytes", "encoding", "chunks"):
            return Num(mk("dim", mk("dsnames"), name))
        self.event("missing_attr", node, obj="Dataset", name=name)
        return ExtM(o, name)

    def getattr_da(self, o, n, name, node):
        if name in ("values", "data"):
            return Arr(n.buf, n.path)
        if name == "attrs":
            return Ref(n.attrs)
        if name == "dims":
            if n.dims is not None:
                return Tup([K(d) if isinstance(d, str) else d for d in n.dims])
            return Num(mk("dim", self.skey(self.term(o)), "dims"), "unk")
        if name == "sizes":
            return ExtM(o, "__sizes__")
        if name == "shape":
            return self.shape_value(o)
        if name == "size":
            s = self.vshape(o)
            if s is not None and len(s) == 1:
                return self.num(s[0], "scalar")
            return Num(mk("dim", self.skey(self.term(o)), "size"), "scalar")
        if name == "ndim":
            s = self.vshape(o)
            if s is not None:
                return K(len(s))
            return Num(mk("dim", self.skey(self.term(o)), "ndim"), "scalar")
        if name == "T":
            return Ref(self.new(n.but(path=n.path + (("T",),), dims=tuple(reversed(n.dims)) if n.dims else None)))
        if name == "name":
            return K(n.name) if n.name else Num(mk("unk", "name"), "str")
        if name == "dtype":
            return Num(mk("dim", self.skey(self.term(o)), "dtype"))
        if name in ("str", "dt", "coords", "indexes", "encoding", "loc", "plot", "real", "imag"):
            if name in ("real", "imag"):
                return self.num(mk(name, self.term(o)), "da", n.dims)
            return ExtM(o, "__%s__" % name)
        if name in DA_METHODS:
            return ExtM(o, name)
        # coordinate access such as da.time
        return Num(mk("coord", self.term(o), name), "da")

    def vshape(self, v):
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, DA) and n.dims is not None and all(isinstance(d, str) for d in n.dims):
                return tuple(self.term(self.dim_size(None, K(d), None)) for d in n.dims)
        if isinstance(v, Num) and v.kind == "da" and v.meta and all(isinstance(d, str) for d in v.meta):
            return tuple(self.term(self.dim_size(None, K(d), None)) for d in v.meta)
        return self.shape(self.term(v))

    def shape_value(self, v):
        s = self.vshape(v)
        if s is not None:
            return Tup([self.num(x, "scalar") for x in s])
        return Num(mk("dim", self.skey(self.term(v)), "shape"), "unk")

    def flat(self, t):
        """certainly a single number"""
        return t.op in ("c", "par", "extm") or t.op in ("mul", "add", "pow", "to", "mag", "m:Quantity") and all(
            not isinstance(a, tm.T) or a.op in ("kw", "unit", "ext:pint.UnitRegistry") or self.flat(a) for a in t.args)

    def skey(self, t):
        """representative of the shape of a term"""
        while True:
            if t.op in ("store", "loop", "where", "phi", "exp", "log", "log10", "flip", "cumsum", "astype"):
                if t.op == "loop":
                    t = t.args[3] if len(t.args) > 3 else t.args[1]
                elif t.op in ("where", "phi"):
                    t = t.args[1] if t.args[1].op not in ("c", "nan") else t.args[2]
                else:
                    t = t.args[0]
                continue
            if t.op in ("add", "mul"):
                xs = [a for a in t.args if not self.flat(a)] or [a for a in t.args if a.op not in ("c",)]
                if xs and xs[0] is not t:
                    t = xs[0]
                    continue
            if t.op == "pow":
                t = t.args[0]
                continue
            if t.op == "fill":
                return t.args[1] if len(t.args) > 1 else t
            return t

    def getattr_num(self, v, name, node):
        t = self.term(v)
        kd = self.kind_of(v)
        if name in ("magnitude", "m"):
            m = self.magnitude(t)
            if isinstance(v, Num) and isinstance(v.meta, tuple) and v.meta[:1] == ("shares",) and isinstance(m, Num):
                ow = self.node(v.meta[1].buf).owner
                if ow is not None:
                    return Arr(self.new(Buf(m.term, ow)), ())
            return m
        if name in ("units", "u"):
            return Num(mk("unitsof", t), "str")
        if name in ("values", "data") and kd in ("da", "unk"):
            return Num(t, "arr")
        if name == "attrs":
            return Ref(self.new(Dct({}, (), ("attr", "tmp"))))
        if name == "shape":
            return self.shape_value(v)
        if name == "dims":
            if kd == "da" and isinstance(v, Num) and v.meta:
                return Tup([K(d) if isinstance(d, str) else d for d in v.meta])
            return Num(mk("dim", self.skey(t), "dims"), "unk")
        if name == "size":
            if t.op == "tup" and all(isinstance(q, tm.T) and q.op == "c" for q in t.args):
                return K(len(t.args))
            if t.op == "c" and isinstance(t.args[0], str):
                return K(1)
            return Num(mk("dim", self.skey(t), "size"), "scalar")
        if name == "ndim":
            s = self.vshape(v)
            if s is not None:
                return K(len(s))
            return Num(mk("dim", self.skey(t), "ndim"), "scalar")
        if name == "dtype":
            return Num(mk("dim", self.skey(t), "dtype"))
        if name == "sizes":
            return ExtM(v, "__sizes__")
        if name == "T":
            if isinstance(v, Arr):
                return Arr(v.buf, v.path + (("T",),))
            return Num(mk("T", t), kd)
        if name in ("real", "imag"):
            return Num(mk(name, t), kd)
        return ExtM(v, name)

    def magnitude(self, t):
        if t.op == "qty":
            return self.num(t.args[0], "unk")
        return self.num(mk("mag", t), "unk")

    def setattr(self, o, name, v, node=None, aug=False):
        if isinstance(o, Choice):
            self.setattr(o.a, name, v, node, aug)
            self.setattr(o.b, name, v, node, aug)
            return
        if isinstance(o, Ref):
            n = self.node(o.addr)
            if isinstance(n, Obj):
                p, k = n.cls.find(name)
                if isinstance(p, PropV):
                    if p.set is None:
                        self.throw("AttributeError", "can't set attribute %s" % name, node)
                    self.call_func(p.set, [o, v], {}, node)
                    return
                f = dict(n.fields)
                f[name] = v
                self.put(o.addr, Obj(n.cls, f))
                return
            if isinstance(n, DA):
                if name in ("values", "data"):
                    ow = self.node(n.buf).owner
                    if ow is not None and not aug:
                        self.event("mutate", node, owner=ow)
                    if isinstance(v, Arr):
                        self.put(o.addr, n.but(buf=v.buf, path=v.path))
                    else:
                        b = self.new(Buf(self.term(v), ow))
                        self.put(o.addr, n.but(buf=b, path=()))
                elif name == "attrs":
                    if isinstance(v, Ref) and isinstance(self.node(v.addr), Dct):
                        self.put(o.addr, n.but(attrs=self.copy_attrs(v.addr)))
                elif name == "name":
                    self.put(o.addr, n.but(name=v.val if isinstance(v, K) else None))
                return
            if isinstance(n, DS):
                if name == "attrs" and isinstance(v, Ref):
                    self.put(o.addr, n.but(attrs=v.addr))
                return
        if isinstance(o, ModV):
            self.putenv(o.env, name, v)

    # ------------------------------------------------------------ subscripts
    def ds_get(self, ref, name, node):
        n = self.node(ref.addr)
        a = n.vars.get(name)
        if a is None and self.layout is not None and name in self.layout.dims(n):
            return self.layout.counter(name)
        if a is None and name in n.coords:
            return n.coords[name]
        if a is None:
            if name in n.dropped or n.auto is None or not n.auto(name):
                self.throw("KeyError", "no variable named %r" % (name,), node)
            a = self.ds_auto(ref.addr, name)
        return Ref(a)

    def ds_auto(self, addr, name, owner=True):
        """creates an input variable of a dataset read from file"""
        n = self.node(addr)
        src = n.src or ("in",)
        t = mk(*(src + (name,)))
        attrs = self.new(Dct({}, (), ("attr", name)))
        b = self.new(Buf(t, ":".join(str(x) for x in src + (name,)) if owner else None))
        a = self.new(DA(b, (), attrs, name, None))
        vs = dict(self.node(addr).vars)
        vs[name] = a
        self.put(addr, self.node(addr).but(vars=vs))
        return a

    def ds_set(self, ref, name, v, node):
        n = self.node(ref.addr)
        if isinstance(v, Choice):
            v = self.mkda(self.term(v))
        ex = n.vars.get(name)
        if isinstance(v, Tup) and len(v.items) in (2, 3):
            da = self.mkda(self.term(v.items[1]), attrs=self.copy_attrs(v.items[2].addr) if len(v.items) == 3 and
                           isinstance(v.items[2], Ref) else None)
            a = da.addr
            it = v.items[1]
            if isinstance(it, Arr):
                self.put(a, self.node(a).but(buf=it.buf, path=it.path))
            dn = v.items[0]
            dn = [dn] if isinstance(dn, K) else self.unpack_any(dn)
            if dn and all(isinstance(x, K) and isinstance(x.val, str) for x in dn):
                self.put(a, self.node(a).but(dims=tuple(x.val for x in dn)))
        elif isinstance(v, Ref) and isinstance(self.node(v.addr), DA):
            d = self.node(v.addr)
            if v.addr == ex:
                a = ex
            else:
                a = self.new(d.but(attrs=self.copy_attrs(d.attrs), name=name))
        elif isinstance(v, Arr):
            a = self.new(DA(v.buf, v.path, self.new(Dct({})), name))
        else:
            a = self.new_da(self.term(v), dims=self.dims_of(v), name=name)
        if ex is not None:
            ow = self.node(self.node(ex).buf).owner
            if ow is not None and a != ex:
                nb = self.node(a)
                if not (nb.buf == self.node(ex).buf and nb.path == self.node(ex).path):
                    self.event("replace", node, owner=ow, name=name,
                               same=self.term(Ref(a)) is self.term(Ref(ex)))
        if self.layout is not None:
            self.layout.set(n.but(vars={k: v for k, v in n.vars.items() if k != name}), name, self.node(a), node)
        vs = dict(n.vars)
        vs[name] = a
        self.put(ref.addr, n.but(vars=vs, dropped=n.dropped - {name}))
        self.event("dsset", node, name=name)

    def concrete_int(self, v):
        return v.val if isinstance(v, K) and isinstance(v.val, int) and not isinstance(v.val, bool) else None

    def slice_py(self, s):
        vals = []
        for x in (s.a, s.b, s.c):
            if isinstance(x, K) and (x.val is None or isinstance(x.val, int)):
                vals.append(x.val)
            else:
                return None
        return slice(*vals)

    def getitem(self, o, k, node=None):
        if isinstance(o, Choice):
            return self.fork_value(o.cond, lambda: self.getitem(o.a, k, node), lambda: self.getitem(o.b, k, node))
        if isinstance(o, ExtM) and o.name in ("__dims__", "__sizes__"):
            return self.dim_size(o.recv, k, node)
        if isinstance(o, ExtM) and o.name == "__coords__":
            return self.getitem(o.recv, k, node)
        if isinstance(o, Ref):
            n = self.node(o.addr)
            if isinstance(k, Choice) and isinstance(n, (DS, Dct)):
                return self.fork_value(k.cond, lambda: self.getitem(o, k.a, node), lambda: self.getitem(o, k.b, node))
            if isinstance(n, DS):
                if isinstance(k, K) and isinstance(k.val, str):
                    return self.ds_get(o, k.val, node)
                if self.is_list(k):
                    l = self.node(k.addr)
                    if l.concrete() and all(isinstance(x, K) for x in l.items()):
                        vs = {}
                        for x in l.items():
                            vs[x.val] = self.ds_get(o, x.val, node).addr
                        n = self.node(o.addr)
                        return Ref(self.new(DS(vs, n.attrs, None, n.src)))
                if isinstance(k, K):
                    self.throw("KeyError", "no variable named %r" % (k.val,), node)
                return self.ds_dyn(o, k, node)
            if isinstance(n, Dct):
                pk = self.pykey(k)
                if pk is not None:
                    if pk[0] in n.items and n.items[pk[0]] is not UNBOUND:
                        return self.resolve(n.items[pk[0]])
                    if n.auto:
                        return Num(mk(n.auto[0], n.auto[1], str(pk[0])), "str")
                    if n.extra:
                        return self.num(mk("dictsel", self.term(k), *[self.term(v) for _, v in n.extra]))
                    self.throw("KeyError", pk[0], node)
                for kt, v in n.extra:
                    if kt is self.term(k):
                        return v
                kt = self.term(k)
                return self.num(mk("dictsel", kt, *([self.term(v) for m, v in n.items.items() if may_name(kt, m)] +
                                                             [self.term(v) for _, v in n.extra])))
            if isinstance(n, Lst):
                return self.getitem_lst(n, k, node)
            if isinstance(n, DA):
                return self.getitem_da(o, n, k, node)
            if isinstance(n, Obj):
                m, _ = n.cls.find("__getitem__")
                if m is not None:
                    return self.call_func(m, [o, k], {}, node)
                self.throw("TypeError", "%s object is not subscriptable" % n.cls.name, node)
            if isinstance(n, St):
                self.throw("TypeError", "set is not subscriptable", node)
        if isinstance(o, Tup):
            i = self.concrete_int(k)
            if i is not None:
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                self.throw("IndexError", i, node)
            if isinstance(k, Slice):
                s = self.slice_py(k)
                if s is not None:
                    return Tup(o.items[s])
            return self.num(idx(self.term(o), self.term(k)))
        if isinstance(o, K):
            if isinstance(o.val, str):
                if isinstance(k, K):
                    try:
                        return K(o.val[k.val])
                    except Exception:
                        self.throw("IndexError", k.val, node)
                if isinstance(k, Slice) and self.slice_py(k) is not None:
                    return K(o.val[self.slice_py(k)])
                return Num(mk("unk", "strsub"), "str")
            if o.val is None or isinstance(o.val, (bool, int, float)):
                self.throw("TypeError", "%r object is not subscriptable" % type(o.val).__name__, node)
        if isinstance(o, (FuncV, BoundV, ClassV)):
            self.throw("TypeError", "function is not subscriptable", node)
        if isinstance(o, ExtV):
            return ExtV(o.name + "[]")
        if isinstance(o, ExtM):
            return self.num(mk("idx", self.term(o), self.term(k)))
        # arrays
        kt = self.key_term(k)
        if isinstance(o, Arr):
            if self.basic_view(k):
                return Arr(o.buf, o.path + (self.view_step(kt),))
            return self.num(self.mkidx(self.term(o), kt), self.idx_kind(k))
        t = self.term(o)
        if t.op == "lut" and isinstance(k, K):
            return Num(mk(*(("lut",) + t.args + (k.val,))), "unk")
        if t.op == "dim" and len(t.args) == 2 and t.args[1] in ("shape", "dims") and isinstance(k, K):
            return Num(mk("dim", t.args[0], (t.args[1], k.val)), "scalar" if t.args[1] == "shape" else "str")
        kd = self.kind_of(o)
        if kd in ("scalar",) and not isinstance(o, K):
            kd = "unk"
        rk = "q" if kd == "q" else ("da" if kd == "da" else self.idx_kind(k))
        return self.num(self.mkidx(t, kt), rk)

    def idx_kind(self, k):
        ks = k.items if isinstance(k, Tup) else (k,)
        for x in ks:
            if isinstance(x, (Slice, Arr)) or (isinstance(x, K) and (x.val is Ellipsis or x.val is None)):
                return "arr"
            if isinstance(x, Num) and x.kind in ("arr", "da"):
                return "arr"
            if isinstance(x, Ref):
                return "arr"
        return "unk"

    def view_step(self, kt):
        rev = mk("slice", tm.NONE, tm.NONE, c(-1))
        if kt is rev:
            return ("flip", c(0))
        return ("idx", kt)

    def basic_view(self, k):
        ks = k.items if isinstance(k, Tup) else (k,)
        sl = False
        for x in ks:
            if isinstance(x, Slice) or (isinstance(x, K) and (x.val is None or x.val is Ellipsis)):
                sl = True
            elif isinstance(x, K) and isinstance(x.val, int):
                pass
            elif isinstance(x, Num) and x.kind == "scalar":
                pass
            else:
                return False
        return sl

    def key_term(self, k):
        if isinstance(k, Tup):
            items = list(k.items)
            while len(items) > 1 and isinstance(items[-1], Slice) and items[-1] == Slice(NONE, NONE, NONE) and not any(
                    isinstance(x, K) and x.val is Ellipsis for x in items[:-1]):
                items.pop()
            if len(items) == 1:
                return self.term(items[0])
            return mk("tup", *[self.term(x) for x in items])
        return self.term(k)

    def getitem_lst(self, n, k, node):
        i = self.concrete_int(k)
        if n.concrete():
            if i is not None:
                if -len(n.segs) <= i < len(n.segs):
                    return n.segs[i][1]
                self.throw("IndexError", i, node)
            if isinstance(k, Slice):
                s = self.slice_py(k)
                if s is not None:
                    return self.lst(n.segs[s])
            if isinstance(k, K):
                self.throw("TypeError", "list indices must be integers", node)
            return self.num(idx(self.lst_term(n), self.term(k)))
        if len(n.segs) == 1 and n.segs[0][0] == "gen" and not isinstance(k, Slice):
            v, sym = self.flat_gen(n.segs[0])
            if v is not None:
                self.event("genindex", node, key=self.term(k), seg=n.segs[0])
                if sym is None:
                    return v
                kt = self.term(k)
                return self.map_terms(v, lambda t: tm.subst(t, {sym: kt}))
        if i is not None and all(s[0] == "item" for s in n.segs[:i + 1]) and 0 <= i < len(n.segs):
            return n.segs[i][1]
        return self.num(idx(self.lst_term(n), self.term(k)))

    def getitem_da(self, o, n, k, node):
        if isinstance(k, K) and isinstance(k.val, str):
            return Num(mk("coord", self.term(o), k.val), "da")
        kt = self.key_term(k)
        if self.basic_view(k):
            return Ref(self.new(n.but(path=n.path + (self.view_step(kt),), attrs=self.copy_attrs(n.attrs), dims=None)))
        return Num(self.mkidx(self.term(o), kt), "da")

    def ds_dyn(self, o, k, node):
        return Num(mk("dsdyn", self.term(k)), "da")

    def setitem(self, o, k, v, node=None, aug=False):
        if isinstance(o, Choice):
            def w(x):
                self.setitem(x, k, v, node, aug)
                return NONE
            self.fork_value(o.cond, lambda: w(o.a), lambda: w(o.b))
            return
        if isinstance(o, Ref):
            n = self.node(o.addr)
            if isinstance(k, Choice) and isinstance(n, (DS, Dct)):
                def w(x):
                    self.setitem(o, x, v, node, aug)
                    return NONE
                self.fork_value(k.cond, lambda: w(k.a), lambda: w(k.b))
                return
            if isinstance(n, DS):
                if isinstance(k, K):
                    self.ds_set(o, k.val, v, node)
                else:
                    self.event("dsset_dyn", node, key=self.term(k))
                return
            if isinstance(n, Dct):
                pk = self.pykey(k)
                if isinstance(v, Num) and v.kind == "da":
                    v = self.mkda(v.term, None, v.meta)
                if pk is not None:
                    it = dict(n.items)
                    it[pk[0]] = v
                    self.put(o.addr, n.but(items=it, maybe=n.maybe - {pk[0]}))
                else:
                    self.put(o.addr, n.but(extra=n.extra + ((self.term(k), v),)))
                return
            if isinstance(n, Lst):
                i = self.concrete_int(k)
                if i is not None and n.concrete() and -len(n.segs) <= i < len(n.segs):
                    s = list(n.segs)
                    s[i] = ("item", v)
                    self.put(o.addr, Lst(s))
                else:
                    t = store(self.lst_term(n), self.term(k), self.term(v))
                    self.put(o.addr, Lst([("gen", (("item", self.num(idx(t, self.gix()))),), self.gix(), None)]))
                return
            if isinstance(n, DA):
                kt = self.key_term(k)
                self.write_buf(n.buf, n.path, kt, self.term(v), node)
                return
            if isinstance(n, Obj):
                m, _ = n.cls.find("__setitem__")
                if m is not None:
                    self.call_func(m, [o, k, v], {}, node)
                    return
        if isinstance(o, Arr):
            kt = self.key_term(k)
            self.write_buf(o.buf, o.path, kt, self.term(v), node)
            return
        if isinstance(o, ExtM) and o.name in ("__coords__",):
            self.setitem(o.recv, k, v, node)
            return
        if isinstance(o, ExtM) and o.name == "__loc__":
            n = self.node(o.recv.addr)
            self.write_buf(n.buf, n.path, self.key_term(k), self.term(v), node)
            return
        if isinstance(o, (Tup, K)):
            self.throw("TypeError", "object does not support item assignment", node)
        self.event("store_unknown", node, term=self.term(o))

    def delitem(self, o, k, node):
        if isinstance(o, Ref):
            n = self.node(o.addr)
            if isinstance(n, Dct):
                pk = self.pykey(k)
                if pk is not None:
                    if pk[0] not in n.items:
                        self.throw("KeyError", pk[0], node)
                    it = dict(n.items)
                    del it[pk[0]]
                    self.put(o.addr, n.but(items=it))
            elif isinstance(n, DS) and isinstance(k, K):
                self.ds_drop(o, [k.val], node)
            elif isinstance(n, Lst) and n.concrete() and self.concrete_int(k) is not None:
                s = list(n.segs)
                try:
                    del s[k.val]
                except IndexError:
                    self.throw("IndexError", k.val, node)
                self.put(o.addr, Lst(s))

    def ds_drop(self, o, names, node):
        n = self.node(o.addr)
        vs = dict(n.vars)
        for x in names:
            vs.pop(x, None)
        self.put(o.addr, n.but(vars=vs, dropped=n.dropped | frozenset(names)))

    # ------------------------------------------------------------ dims
    def dims_list(self, recv):
        return self.ds_dim_names.get("*", ("time", "height"))

    def dims_has(self, recv, a):
        if isinstance(a, K):
            ds = self.ds_dims_hook(recv, a.val)
            if ds is not None:
                return ds
        return mk("contains", mk("dim", mk("dsnames"), "dims"), self.term(a))

    def ds_dims_hook(self, recv, name):
        return None

    def ds_coords_hook(self, recv, name):
        return None

    def dim_size(self, recv, k, node):
        if self.layout is not None and isinstance(k, K) and k.val in self.layout.sizes:
            return K(self.layout.sizes[k.val])
        if isinstance(recv, Ref) and isinstance(self.node(recv.addr), DS):
            if isinstance(k, K):
                h = self.ds_dim_size(recv, k.val)
                if h is not None:
                    return h
                return Num(mk("dim", "ds", k.val), "scalar")
        if isinstance(k, K) and isinstance(k.val, str):
            return Num(mk("dim", "ds", k.val), "scalar")
        return Num(mk("dim", "ds", self.term(k)), "scalar")

    def ds_dim_size(self, recv, name):
        return None


DS_METHODS = {"keys", "values", "items", "copy", "drop_vars", "rename", "isel", "sel", "assign_coords", "drop_dims",
              "merge", "to_netcdf", "load", "close", "transpose", "stack", "unstack", "where", "mean", "sum", "update",
              "assign", "get", "reset_index", "set_index", "swap_dims", "expand_dims", "squeeze", "compute", "interp",
              "to_dataframe", "map", "drop", "set_coords", "reset_coords", "persist", "resample", "sortby", "pipe",
              "rename_vars", "rename_dims", "reindex", "fillna", "pop", "info", "dropna", "chunk", "roll", "shift",
              "groupby", "to_array", "assign_attrs", "drop_sel", "equals", "identical", "broadcast_like", "head",
              "max", "min"}
DA_METHODS = {"copy", "where", "fillna", "sum", "mean", "max", "min", "std", "var", "prod", "any", "all", "isel",
              "sel", "assign_coords", "rename", "swap_dims", "transpose", "stack", "unstack", "expand_dims", "astype",
              "to_dataset", "squeeze", "load", "compute", "drop_vars", "interp", "resample", "cumsum", "cumprod",
              "diff", "isnull", "notnull", "isin", "clip", "round", "argmax", "argmin", "count", "dropna", "sortby",
              "item", "to_numpy", "to_series", "to_dataframe", "to_masked_array", "tolist", "flatten", "ravel",
              "get_axis_num", "get_index", "set_index", "reset_index", "reset_coords", "broadcast_like", "shift",
              "roll", "groupby", "rolling", "quantile", "median", "integrate", "dot", "equals", "identical", "reindex",
              "persist", "chunk", "drop", "pipe", "close", "ffill", "bfill", "interpolate_na", "assign_attrs",
              "combine_first", "drop_sel", "conj", "searchsorted", "reduce", "map_blocks", "as_numpy", "to_netcdf",
              "coarsen", "weighted", "differentiate", "to_unstacked_dataset", "head", "tail", "thin"}
