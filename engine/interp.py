"""Abstract interpreter over the Python syntax tree.

Evaluates a function for one configuration: configuration values (model class, options, class lists) are concrete,
all data are terms.  Branches on data are both taken and joined with gates; loops over data-sized domains are
summarised by one generic iteration.  Calls into the analysed package are followed; calls into libraries have
transfer functions (lib.py) with a conservative default.
"""
import ast
import os
import warnings

from . import terms as tm
from .terms import c, mk, phi
from .values import *  # noqa
from .values import Unbound
from .desugar import desugar
from .lib import Lib
from .calls import Calls
from .shape import Shapes


class AbsRaise(Exception):
    def __init__(self, exc, msg=None, node=None):
        Exception.__init__(self, exc, msg)
        self.exc, self.msg, self.node = exc, msg, node


class AnalysisError(Exception):
    pass


class Event:
    __slots__ = ("kind", "file", "line", "func", "stack", "pc", "data")

    def __init__(self, kind, file, line, func, stack, pc, data):
        self.kind, self.file, self.line, self.func = kind, file, line, func
        self.stack, self.pc, self.data = stack, pc, data

    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)

    def __repr__(self):
        return "%s at %s %r" % (self.kind, self.where(), self.data)


class Frame:
    __slots__ = ("func", "mod", "env", "abrupt", "locals", "node", "cls", "self_", "line", "cellenv", "randn",
                 "globals_", "nonlocals_")

    def __init__(self, func, mod, env, locals_, cls=None, self_=None):
        self.func, self.mod, self.env, self.locals = func, mod, env, locals_
        self.abrupt = []
        self.cls, self.self_ = cls, self_
        self.node = None
        self.line = 0
        self.randn = {}
        self.globals_ = set()
        self.nonlocals_ = set()


def _assigned_names(fn):
    """local names of a function body (not descending into nested scopes)"""
    names, glob = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    tgt(w.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for ch in ast.iter_child_nodes(n):
            visit(ch)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        visit(s)
    return names - glob


STUBS = {"act"}        # third-party modules the analysis reads a summary of


class Repo:
    """parsed sources of the analysed tree"""

    def __init__(self, root="/repo"):
        self.root = root
        self.trees = {}

    def path_of(self, dotted):
        p = os.path.join(self.root, *dotted.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if dotted.split(".")[0] in STUBS:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", *dotted.split("."))
            if os.path.isdir(p):
                return os.path.join(p, "__init__.py"), True
            if os.path.exists(p + ".py"):
                return p + ".py", False
        return None, False

    def tree(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    t = desugar(ast.parse(f.read(), path))
            self.trees[path] = t
        return t


MAXDEPTH = 40


class Interp(Lib, Calls, Shapes):
    def __init__(self, repo):
        self.repo = repo
        self.heap = Layer()
        self.pc = ()
        self.next = 1
        self.events = []
        self.muted = 0
        self.imprecise = []
        self.frames = []
        self.modules = {}
        self.loop_depth = 0
        self.localsc = {}
        self.shape_memo = {}
        self.stats = dict(calls=0, stmts=0, funcs=set(), ext={}, loops=0, branches=0)
        self.unknown_ext = {}
        self.hooks = {}      # qualname -> python callable(interp, args, kwargs) replacing a call
        self.concat = {}     # list address -> addresses of the lists it was concatenated from
        self.watch = set()   # qualnames whose calls are recorded as events
        self.pkg = "emc2"
        self.setup()

    # ------------------------------------------------------------ heap
    def new(self, node):
        a = self.next
        self.next += 1
        self.heap.d[a] = node
        return a

    def node(self, a):
        return self.heap.get(a)

    def put(self, a, node):
        self.heap.d[a] = node

    # ------------------------------------------------------------ events
    def event(self, kind, node=None, **data):
        if self.muted:
            return
        fr = self.frames[-1] if self.frames else None
        line = getattr(node, "lineno", None) or (fr.line if fr else 0)
        self.events.append(Event(kind, os.path.relpath(fr.mod.path, self.repo.root) if fr and fr.mod else "?", line,
                                 fr.func if fr else "?", tuple((f.func, f.line) for f in self.frames), self.pc, data))

    def throw(self, exc, msg, node=None, explicit=False):
        self.event("raise", node, exc=exc, msg=msg, explicit=explicit)
        raise AbsRaise(exc, msg, node)

    # ------------------------------------------------------------ modules
    def module(self, dotted):
        m = self.modules.get(dotted)
        if m is not None:
            return m
        path, _ = self.repo.path_of(dotted)
        if path is None:
            return None
        if "." in dotted:
            self.module(dotted.rpartition(".")[0])
            if dotted in self.modules:
                return self.modules[dotted]
        env = self.new(Env({"__name__": K(dotted), "__file__": K(path)}))
        m = ModV(dotted, env, path)
        self.modules[dotted] = m
        if "." in dotted:
            par, _, leaf = dotted.rpartition(".")
            pm = self.module(par)
            if pm is not None:
                en = self.node(pm.env)
                self.putenv(pm.env, leaf, m)
        fr = Frame("<module>", m, env, None)
        self.frames.append(fr)
        pc, self.pc = self.pc, ()
        depth, self.loop_depth = self.loop_depth, 0
        try:
            self.exec_block(self.repo.tree(path).body)
        except AbsRaise as e:
            self.event("module_raise", None, mod=dotted, exc=e.exc, msg=e.msg)
        finally:
            self.frames.pop()
            self.pc = pc
            self.loop_depth = depth
        return m

    def putenv(self, addr, name, v):
        en = self.node(addr)
        vs = dict(en.vars)
        vs[name] = v
        self.put(addr, Env(vs, en.parent))

    def import_module(self, dotted):
        if dotted.split(".")[0] == self.pkg:
            m = self.module(dotted)
            if m is not None:
                return m
        return ExtV(dotted)

    def attr_of_module(self, m, name, node=None):
        v = self.node(m.env).vars.get(name)
        if v is not None:
            return v
        path, _ = self.repo.path_of(m.name + "." + name)
        if path is not None:
            return self.module(m.name + "." + name)
        self.throw("AttributeError", "module %s has no attribute %s" % (m.name, name), node)

    # ------------------------------------------------------------ merging
    def merge_deltas(self, cond, base, d1, d2):
        out = {}
        # join referenced nodes first by address; both deltas are relative to base
        for a in d1.keys() | d2.keys():
            n0 = base.get(a)
            n1 = d1.get(a, n0)
            n2 = d2.get(a, n0)
            if n1 is n2:
                out[a] = n1
            elif n1 is None:
                out[a] = n2
            elif n2 is None:
                out[a] = n1
        h = Layer(base)
        h.d.update(out)
        s1, s2 = Layer(base), Layer(base)
        s1.d, s2.d = d1, d2
        saved = self.heap
        self.heap = h
        self._j = (s1, s2)
        try:
            for a in d1.keys() | d2.keys():
                if a in out and (a in h.d):
                    continue
                n0 = base.get(a)
                h.d[a] = self.join_node(cond, d1.get(a, n0), d2.get(a, n0))
        finally:
            self.heap = saved
            self._j = None
        return h.d

    def in_layer(self, layer, f):
        saved, self.heap = self.heap, layer
        try:
            return f()
        finally:
            self.heap = saved

    def join_value(self, cond, v1, v2):
        if v1 is v2 or v1 == v2:
            return v1
        if v1 is UNBOUND or v1 is None:
            return v2 if v2 is not None else UNBOUND
        if v2 is UNBOUND or v2 is None:
            return v1
        s1, s2 = self._j if self._j else (self.heap, self.heap)
        if isinstance(v1, Tup) and isinstance(v2, Tup) and len(v1.items) == len(v2.items):
            return Tup([self.join_value(cond, a, b) for a, b in zip(v1.items, v2.items)])
        if isinstance(v1, Choice) and v1.cond is cond:
            return self.join_value(cond, v1.a, v2)
        if isinstance(v2, Choice) and v2.cond is cond:
            return self.join_value(cond, v1, v2.b)
        ok = (K, Num, Arr)
        if isinstance(v1, ok) and isinstance(v2, ok):
            if isinstance(v1, K) and isinstance(v2, K) and (v1.val is None) != (v2.val is None):
                pass
            t1 = self.in_layer(s1, lambda: self.term(v1))
            t2 = self.in_layer(s2, lambda: self.term(v2))
            t = phi(cond, t1, t2)
            if isinstance(v1, Arr) or isinstance(v2, Arr):
                own = None
                for v, s in ((v1, s1), (v2, s2)):
                    if isinstance(v, Arr):
                        b = s.get(v.buf)
                        own = own or (b.owner if b else None)
                return Arr(self.new(Buf(t, own)))
            k1 = self.kind_of(v1)
            k2 = self.kind_of(v2)
            return Num(t, k1 if k1 == k2 else ("scalar" if {k1, k2} <= {"scalar", "bool"} else
                                               "arr" if {k1, k2} <= {"scalar", "arr", "bool"} else
                                               "q" if "q" in (k1, k2) and "unk" not in (k1, k2) else "unk"))
        if isinstance(v1, Ref) and isinstance(v2, Ref):
            n1, n2 = s1.get(v1.addr), s2.get(v2.addr)
            if type(n1) is type(n2) and isinstance(n1, (DA, Lst, Dct)) and not (
                    isinstance(n1, Lst) and len(n1.segs) != len(n2.segs)):
                return Ref(self.new(self.join_node(cond, n1, n2)))
        if isinstance(v1, Ref) and isinstance(v2, ok) or isinstance(v2, Ref) and isinstance(v1, ok):
            r, o, rs = (v1, v2, s1) if isinstance(v1, Ref) else (v2, v1, s2)
            if isinstance(rs.get(r.addr), DA) and not (isinstance(o, K) and o.val is None):
                t1 = self.in_layer(s1, lambda: self.term(v1))
                t2 = self.in_layer(s2, lambda: self.term(v2))
                return Arr(self.new(Buf(phi(cond, t1, t2), None)))
        return Choice(cond, v1, v2)

    def join_node(self, cond, n1, n2):
        if n1 is n2:
            return n1
        s1, s2 = self._j if self._j else (self.heap, self.heap)
        if type(n1) is not type(n2):
            return n1
        if isinstance(n1, Buf):
            return Buf(phi(cond, n1.term, n2.term), n1.owner or n2.owner)
        if isinstance(n1, Env):
            vs = {}
            for k in list(n1.vars) + [k for k in n2.vars if k not in n1.vars]:
                vs[k] = self.join_value(cond, n1.vars.get(k, UNBOUND), n2.vars.get(k, UNBOUND))
            return Env(vs, n1.parent)
        if isinstance(n1, Obj):
            fs = {}
            for k in list(n1.fields) + [k for k in n2.fields if k not in n1.fields]:
                fs[k] = self.join_value(cond, n1.fields.get(k, UNBOUND), n2.fields.get(k, UNBOUND))
            return Obj(n1.cls, fs)
        if isinstance(n1, DA):
            if (n1.buf, n1.path) == (n2.buf, n2.path):
                buf, path = n1.buf, n1.path
            else:
                t1 = self.in_layer(s1, lambda: self.view(n1.buf, n1.path))
                t2 = self.in_layer(s2, lambda: self.view(n2.buf, n2.path))
                b1, b2 = s1.get(n1.buf), s2.get(n2.buf)
                buf, path = self.new(Buf(phi(cond, t1, t2), b1.owner or b2.owner)), ()
            at = n1.attrs
            if n1.attrs != n2.attrs:
                a1, a2 = s1.get(n1.attrs), s2.get(n2.attrs)
                at = self.new(self.join_node(cond, a1, a2)) if a1 and a2 else (n1.attrs or n2.attrs)
            return n1.but(buf=buf, path=path, attrs=at, dims=n1.dims if n1.dims == n2.dims else None)
        if isinstance(n1, DS):
            vs = {}
            for k in list(n1.vars) + [k for k in n2.vars if k not in n1.vars]:
                a1, a2 = n1.vars.get(k), n2.vars.get(k)
                if a1 is None or a2 is None or a1 == a2:
                    vs[k] = a1 if a1 is not None else a2
                else:
                    vs[k] = self.new(self.join_node(cond, s1.get(a1), s2.get(a2)))
            at = n1.attrs
            if n1.attrs != n2.attrs:
                at = self.new(self.join_node(cond, s1.get(n1.attrs), s2.get(n2.attrs)))
            return n1.but(vars=vs, attrs=at, dropped=n1.dropped & n2.dropped, coords={**n2.coords, **n1.coords})
        if isinstance(n1, Dct):
            it = {}
            for k in list(n1.items) + [k for k in n2.items if k not in n1.items]:
                it[k] = self.join_value(cond, n1.items.get(k, UNBOUND), n2.items.get(k, UNBOUND))
            ex = n1.extra if n1.extra == n2.extra else tuple(n1.extra) + tuple(
                x for x in n2.extra if x not in n1.extra)
            mb = n1.maybe | n2.maybe | frozenset(k for k in it if (k in n1.items) != (k in n2.items))
            return Dct(it, ex, n1.auto or n2.auto, mb)
        if isinstance(n1, Lst):
            g1, g2 = n1.segs, n2.segs
            if len(g1) == len(g2) and all(a[0] == b[0] for a, b in zip(g1, g2)):
                out = []
                for a, b in zip(g1, g2):
                    if a[0] == "item":
                        out.append(("item", self.join_value(cond, a[1], b[1])))
                    elif a == b:
                        out.append(a)
                    else:
                        out.append(a)
                return Lst(out)
            # different lengths: keep the longer, tail conditional
            a, b, pol = (n1, n2, True) if len(g1) >= len(g2) else (n2, n1, False)
            n = len(b.segs)
            if all(x[0] == "item" for x in a.segs) and a.segs[:n] == b.segs:
                cc = cond if pol else tm.lnot(cond)
                tail = [("opt", cc, s) for s in a.segs[n:]]
                return Lst(list(b.segs) + tail)
            t1 = self.in_layer(s1, lambda: self.lst_term(n1))
            t2 = self.in_layer(s2, lambda: self.lst_term(n2))
            return Lst([("gen", (("item", Num(phi(cond, t1, t2), "unk")),), None, None)])
        if isinstance(n1, St):
            return St(list(n1.items) + [x for x in n2.items if x not in n1.items])
        return n1

    def merge_outcomes(self, base, pc0, outs):
        """outs: list of (pc, delta, value) -> (delta, value); tree-merge on the path conditions after pc0."""
        n = len(pc0)

        def rec(items, i):
            if len(items) == 1:
                return items[0][1], items[0][2]
            conds = [it[0][i] if len(it[0]) > i else None for it in items]
            pick = next((x for x in conds if x is not None), None)
            if pick is None:
                d, v = items[0][1], items[0][2]
                cond = mk("unk", "path")
                for it in items[1:]:
                    nd = self.merge_deltas(cond, base, d, it[1])
                    v = self._joinret(cond, base, d, it[1], nd, v, it[2])
                    d = nd
                return d, v
            t = pick[0]
            A = [it for it, cc in zip(items, conds) if cc is not None and cc[0] is t and cc[1]]
            B = [it for it, cc in zip(items, conds) if cc is not None and cc[0] is t and not cc[1]]
            C = [it for it, cc in zip(items, conds) if cc is None or cc[0] is not t]
            if C:
                cond = mk("unk", "path")
                AB = A + B
                if not AB or not C:
                    return rec(items[:1], i)
                d1, v1 = rec(AB, i) if (A and B) else rec(AB, i + 1)
                d2, v2 = rec(C, i)
            elif A and B:
                cond = t
                d1, v1 = rec(A, i + 1)
                d2, v2 = rec(B, i + 1)
            else:
                return rec(A or B, i + 1)
            nd = self.merge_deltas(cond, base, d1, d2)
            return nd, self._joinret(cond, base, d1, d2, nd, v1, v2)
        return rec(outs, n)

    def _joinret(self, cond, base, d1, d2, nd, v1, v2):
        if v1 is None and v2 is None:
            return None
        s1, s2, h = Layer(base), Layer(base), Layer(base)
        s1.d, s2.d, h.d = d1, d2, nd
        saved, self.heap = self.heap, h
        self._j = (s1, s2)
        try:
            return self.join_value(cond, v1 if v1 is not None else NONE, v2 if v2 is not None else NONE)
        finally:
            self._j = None
            self.heap = saved

    _j = None

    # ------------------------------------------------------------ path conditions
    def known(self, t):
        """truth of a condition under the current path, or None"""
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if t.op == "not":
            r = self.known(t.args[0])
            return None if r is None else not r
        for (p, v) in self.pc:
            if p is t:
                return v
            if p.op == "and" and v and t in p.args:
                return True
            if p.op == "or" and not v and t in p.args:
                return False
        if t.op == "and":
            rs = [self.known(a) for a in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if t.op == "or":
            rs = [self.known(a) for a in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if t.op == "phi":
            k = self.known(t.args[0])
            if k is not None:
                return self.known(t.args[1] if k else t.args[2])
        return None

    def truth(self, v):
        """True, False or a condition term"""
        if isinstance(v, K):
            return bool(v.val)
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV, ExtM, Partial)):
            return True
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Lst):
                if any(s[0] == "item" for s in n.segs):
                    return True
                return False if not n.segs else mk("nonempty", self.lst_term(n))
            if isinstance(n, Dct):
                if n.items:
                    return True
                return False if not n.extra and not n.auto else True
            if isinstance(n, St):
                return bool(n.items)
            if isinstance(n, (Obj, DS)):
                return True
        if isinstance(v, Choice):
            a, b = self.truth(v.a), self.truth(v.b)
            ta = a if isinstance(a, tm.T) else (tm.TRUE if a else tm.FALSE)
            tb = b if isinstance(b, tm.T) else (tm.TRUE if b else tm.FALSE)
            t = tm.lor(tm.land(v.cond, ta), tm.land(tm.lnot(v.cond), tb))
        else:
            t = self.term(v)
        if t.op == "c":
            return bool(t.args[0])
        r = self.known(t)
        return t if r is None else r

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """executes statements; False when no normal continuation"""
        for s in stmts:
            fr = self.frames[-1]
            fr.line = s.lineno
            self.stats["stmts"] += 1
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                raise AnalysisError("unsupported statement %s" % type(s).__name__)
            if m(s) is False:
                return False
        return True

    def x_Expr(self, s):
        v = self.eval(s.value)
        if not self.muted:
            self.on_discard(s, v)

    def on_discard(self, s, v):
        pass

    def x_Pass(self, s):
        pass

    def x_Assert(self, s):
        self.eval(s.test)

    def x_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals_.update(s.names)

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.bind(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.import_module(top) if top != a.name else m)

    def x_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            mod = self.frames[-1].mod
            parts = mod.name.split(".")
            ispkg = mod.path.endswith("__init__.py")
            up = s.level - (1 if ispkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            st = self.module(base) if base.split(".")[0] in STUBS and self.repo.path_of(base)[0] else None
            if st is not None and a.name in self.node(st.env).vars:
                v = self.node(st.env).vars[a.name]
            elif base.split(".")[0] == self.pkg:
                m = self.module(base)
                if m is None:
                    self.throw("ImportError", "no module %s" % base, s)
                if a.name == "*":
                    for k, v in list(self.node(m.env).vars.items()):
                        if not k.startswith("_"):
                            self.bind(k, v)
                    continue
                v = self.node(m.env).vars.get(a.name)
                if v is None:
                    p, _ = self.repo.path_of(base + "." + a.name)
                    if p is None:
                        self.throw("ImportError", "cannot import %s from %s" % (a.name, base), s)
                    v = self.module(base + "." + a.name)
            else:
                v = self.ext_attr(ExtV(base), a.name)
            self.bind(a.asname or a.name, v)

    def x_FunctionDef(self, s):
        self.bind(s.name, self.make_func(s, s.name))

    def make_func(self, s, name):
        fr = self.frames[-1]
        defaults = [self.eval(d) for d in s.args.defaults]
        kwd = [None if d is None else self.eval(d) for d in s.args.kw_defaults]
        isp = fr.locals is not None
        f = FuncV(s, fr.env if isp else None, fr.mod, name, defaults, kwd, qual=fr.mod.name + "." + (
            (fr.func + ".") if isp else "") + name)
        v = f
        for d in reversed(getattr(s, "decorator_list", [])):
            if isinstance(d, ast.Name) and d.id == "property":
                v = PropV(f)
            elif isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                f.kind = d.id
            elif isinstance(d, ast.Attribute) and d.attr == "setter":
                old = self.lookup(d.value.id, d) if isinstance(d.value, ast.Name) else None
                v = PropV(old.get if isinstance(old, PropV) else None, f)
        return v

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.eval(b) for b in s.bases]
        env = self.new(Env({}, fr.env))
        nf = Frame(s.name, fr.mod, env, None)
        nf.cellenv = "class"
        self.frames.append(nf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        attrs = dict(self.node(env).vars)
        k = ClassV(s.name, bases, attrs, fr.mod, fr.mod.name + "." + s.name)
        for n, v in attrs.items():
            for f in ([v] if isinstance(v, FuncV) else [v.get, v.set] if isinstance(v, PropV) else []):
                if f is not None:
                    f.owner = k
                    f.env = None
                    f.qual = k.qual + "." + n
        self.bind(s.name, k)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.abrupt("return", v)
        return False

    def abrupt(self, kind, v=None):
        self.frames[-1].abrupt.append((kind, self.pc, self.heap, v))

    def x_Break(self, s):
        self.abrupt("break")
        return False

    def x_Continue(self, s):
        self.abrupt("continue")
        return False

    def x_Raise(self, s):
        name, msg = "Exception", None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    try:
                        v = self.eval(a)
                        msg = v.val if isinstance(v, K) else msg
                    except AbsRaise:
                        raise
                e = e.func
            if isinstance(e, ast.Name):
                v = self.lookup(e.id, e)
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        self.throw(name, msg, s, explicit=True)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr = self.frames[-1]
                en = self.node(fr.env)
                vs = dict(en.vars)
                vs.pop(t.id, None)
                self.put(fr.env, Env(vs, en.parent))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.delitem(o, k, t)

    def x_If(self, s):
        self.stats["branches"] += 1
        cv = self.truth(self.eval(s.test))
        if cv is True:
            return self.exec_block(s.body)
        if cv is False:
            return self.exec_block(s.orelse)
        return self.fork(cv, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def fork(self, cond, f1, f2):
        if cond.op == "not":
            return self.fork(cond.args[0], f2, f1)
        fr = self.frames[-1]
        base, pc0, na = self.heap, self.pc, len(fr.abrupt)
        res = []
        err = None
        for f, pol in ((f1, True), (f2, False)):
            self.heap = Layer(base)
            self.pc = pc0 + ((cond, pol),)
            try:
                alive = f() is not False
            except AbsRaise as e:
                alive = False
                err = e
            if alive:
                res.append((self.pc, self.heap, pol))
        pending = len(fr.abrupt) > na
        if not res:
            self.heap, self.pc = base, pc0
            if not pending and err is not None:
                raise err
            return False
        if len(res) == 1:
            pc, h, _ = res[0]
            self.pc = pc
            if pending:
                self.heap = h
            else:
                base.d.update(h.delta(base))
                self.heap = base
            return True
        (p1, h1, _), (p2, h2, _) = res
        d = self.merge_deltas(cond, base, h1.delta(base), h2.delta(base))
        if pending:
            self.heap = Layer(base)
            self.heap.d.update(d)
        else:
            base.d.update(d)
            self.heap = base
        # keep conditions learned on both sides? only the common prefix is certain
        self.pc = pc0
        return True

    def fork_value(self, cond, f1, f2):
        """value-level fork (conditional expressions)"""
        if cond.op == "not":
            return self.fork_value(cond.args[0], f2, f1)
        base, pc0 = self.heap, self.pc
        res = []
        err = None
        for f, pol in ((f1, True), (f2, False)):
            self.heap = Layer(base)
            self.pc = pc0 + ((cond, pol),)
            try:
                v = f()
                res.append((self.heap.delta(base), v))
            except AbsRaise as e:
                err = e
        self.heap, self.pc = base, pc0
        if not res:
            raise err
        if len(res) == 1:
            base.d.update(res[0][0])
            return res[0][1]
        nd = self.merge_deltas(cond, base, res[0][0], res[1][0])
        h = Layer(base)
        v = self._joinret(cond, base, res[0][0], res[1][0], nd, res[0][1], res[1][1])
        base.d.update(nd)
        return v

    def x_Try(self, s):
        fr = self.frames[-1]
        base, pc0, na = self.heap, self.pc, len(fr.abrupt)
        exc = mk("unk", "exc")
        ev0 = len(self.events)

        def body():
            r = self.exec_block(s.body)
            if r is not False:
                r = self.exec_block(s.orelse)
            return r

        self.heap = Layer(base)
        raised = None
        ok = False
        try:
            ok = body() is not False
        except AbsRaise as e:
            raised = e
        h1, p1 = self.heap, self.pc
        out = True
        if raised is None and s.handlers:
            self.events[ev0:] = [e for e in self.events[ev0:] if e.kind != "raise" or self.match_handler(
                s, AbsRaise(e.data["exc"], e.data["msg"])) is None]
        if raised is not None and s.handlers:
            hd = self.match_handler(s, raised)
            if hd is None:
                base.d.update(h1.delta(base)) if len(fr.abrupt) == na else None
                self.heap = base if len(fr.abrupt) == na else h1
                self.exec_block(s.finalbody)
                raise raised
            self.events[ev0:] = [e for e in self.events[ev0:] if e.kind != "raise"]
            self.heap = h1
            if hd.name:
                self.bind(hd.name, Num(exc, "unk"))
            out = self.exec_block(hd.body) is not False
        elif raised is not None:
            self.heap = h1
            self.exec_block(s.finalbody)
            raise raised
        else:
            out = ok
        if len(fr.abrupt) == na:
            base.d.update(self.heap.delta(base))
            self.heap = base
        if s.finalbody and out:
            out = self.exec_block(s.finalbody) is not False
        return out

    def match_handler(self, s, e):
        sup = {"KeyError": {"LookupError"}, "IndexError": {"LookupError"}, "UnboundLocalError": {"NameError"},
               "ModuleNotFoundError": {"ImportError"}}
        for h in s.handlers:
            if h.type is None:
                return h
            names = [n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?" for n in (
                h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if e.exc in names or "Exception" in names or "BaseException" in names or (
                    sup.get(e.exc, set()) & set(names)):
                return h
        return None

    def x_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                if isinstance(v, Ref) and isinstance(self.node(v.addr), Obj):
                    m = self.getattr(v, "__enter__", s)
                    v = self.call(m, [], {}, s)
                self.assign(i.optional_vars, v)
        return self.exec_block(s.body)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            v = self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
            r = self.eval(s.value)
            nv = self.inplace(type(s.op).__name__, cur, r, s)
            self.bind(t.id, nv)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.getitem(o, k, t)
            r = self.eval(s.value)
            nv = self.inplace(type(s.op).__name__, cur, r, s)
            self.setitem(o, k, nv, t, aug=True)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr, t)
            r = self.eval(s.value)
            nv = self.inplace(type(s.op).__name__, cur, r, s)
            self.setattr(o, t.attr, nv, t, aug=True)

    # ---- binding
    def bind(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_:
            self.putenv(fr.mod.env, name, v)
            return
        a = fr.env
        if name in fr.nonlocals_:
            a = self.node(a).parent
            while a is not None and name not in self.node(a).vars:
                a = self.node(a).parent
            if a is None:
                a = fr.env
        self.putenv(a, name, v)

    def box(self, v):
        """give an array temporary an identity so that it can be updated in place"""
        if isinstance(v, Num):
            if v.kind in ("arr", "unk"):
                if v.kind == "unk" and v.term.op in ("c", "gix"):
                    return v
                return Arr(self.new(Buf(v.term)))
            if v.kind == "da":
                return Ref(self.new_da(v.term, dims=v.meta))
        return v

    def assign(self, t, v):
        """binds target t to v; returns the (boxed) value"""
        if isinstance(t, ast.Name):
            v = self.box(v)
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.unpack_any(v)
                i, n = star[0], len(t.elts)
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, Num(self.term(v)))
                else:
                    after = n - i - 1
                    for e, x in zip(t.elts[:i], items[:i]):
                        self.assign(e, x)
                    self.assign(t.elts[i].value, Ref(self.new(Lst([("item", x) for x in items[i:len(items) - after]]))))
                    for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []):
                        self.assign(e, x)
            else:
                xs = self.unpack(v, len(t.elts), t)
                for e, x in zip(t.elts, xs):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            v = self.box(v)
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        return v

    def unpack_any(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, Lst) and n.concrete():
                return n.items()
        return None

    def unpack(self, v, n, node):
        if isinstance(v, Choice):
            a, b = self.unpack(v.a, n, node), self.unpack(v.b, n, node)
            return [self.join_value(v.cond, x, y) for x, y in zip(a, b)]
        items = self.unpack_any(v)
        if items is not None:
            if len(items) != n:
                self.throw("ValueError", "unpack %d values into %d" % (len(items), n), node)
            return items
        if isinstance(v, Ref) and isinstance(self.node(v.addr), Dct):
            ks = list(self.node(v.addr).items)
            if len(ks) == n:
                return [self.from_py(k) for k in ks]
        t = self.term(v)
        return [self.num(tm.idx(t, c(i))) for i in range(n)]

    # ------------------------------------------------------------ loops
    def x_For(self, s):
        it = self.eval(s.iter)
        segs = self.iter_segs(it, s)
        fr = self.frames[-1]
        base_all, pc_all, na = self.heap, self.pc, len(fr.abrupt)
        broken = []
        alive = True
        for seg in segs:
            if seg[0] == "item":
                def one(v=seg[1]):
                    self.assign(s.target, v)
                    return self.exec_block(s.body)
                alive = self.loop_iter(one, broken)
            elif seg[0] == "opt":
                def opt(sg=seg):
                    self.assign(s.target, sg[2][1])
                    return self.exec_block(s.body)
                cnd = seg[1]
                alive = self.loop_iter(lambda: self.fork(cnd, opt, lambda: True), broken)
            else:
                alive = self.loop_gen(s, seg, broken)
            if not alive:
                break
        if alive and s.orelse:
            alive = self.exec_block(s.orelse) is not False
        return self.join_broken(base_all, pc_all, broken, alive, na)

    def loop_iter(self, f, broken):
        """one concrete iteration; continue-outcomes rejoin, break-outcomes are collected"""
        fr = self.frames[-1]
        na = len(fr.abrupt)
        base, pc0 = self.heap, self.pc
        self.heap = Layer(base)
        alive = f() is not False
        mine = fr.abrupt[na:]
        keep = [x for x in mine if x[0] == "return"]
        conts = [x for x in mine if x[0] == "continue"]
        brk = [x for x in mine if x[0] == "break"]
        fr.abrupt[na:] = keep
        broken.extend(brk)
        outs = [(pc, h) for (_, pc, h, _) in conts]
        if alive:
            outs.append((self.pc, self.heap))
        if not outs:
            self.heap, self.pc = base, pc0
            return False
        if len(outs) == 1:
            self.pc = outs[0][0] if (keep or brk) else outs[0][0]
            d = outs[0][1].delta(base)
        else:
            d, _ = self.merge_outcomes(base, pc0, [(p, h.delta(base), None) for p, h in outs])
            self.pc = pc0
        if keep or brk:
            self.heap = Layer(base)
            self.heap.d.update(d)
        else:
            base.d.update(d)
            self.heap = base
            if len(outs) == 1:
                self.pc = pc0 if not mine else self.pc
        return True

    def join_broken(self, base, pc0, broken, alive, na):
        fr = self.frames[-1]
        if not broken:
            return alive
        outs = [(pc, h.delta(base), None) for (_, pc, h, _) in broken]
        if alive:
            outs.append((self.pc, self.heap.delta(base), None))
        if len(outs) == 1:
            d, pc = outs[0][1], outs[0][0]
        else:
            d, _ = self.merge_outcomes(base, pc0, outs)
            pc = pc0
        if len(fr.abrupt) > na:
            self.heap = Layer(base)
            self.heap.d.update(d)
        else:
            base.d.update(d)
            self.heap = base
        self.pc = pc
        return True

    def gix(self):
        return mk("gix", self.loop_depth)

    def loop_gen(self, s, seg, broken):
        _, segs, sym, dom = seg
        sy = self.gix()

        def bindel():
            v = self.gen_elem(seg, sy)
            self.assign(s.target, v)
            return True
        return self.summarise(bindel, lambda: self.exec_block(s.body), sy, dom, s)

    def x_While(self, s):
        fr = self.frames[-1]
        base_all, pc_all, na = self.heap, self.pc, len(fr.abrupt)
        broken = []
        n = 0
        alive = True
        while True:
            cv = self.truth(self.eval(s.test))
            if cv is False:
                break
            lim = 3 if (isinstance(s.test, ast.Constant)) else 300
            if cv is True and n < lim:
                n += 1
                alive = self.loop_iter(lambda: self.exec_block(s.body), broken)
                if not alive:
                    break
                continue
            # abstract
            cell = {}
            if isinstance(s.test, ast.Constant):
                self.imprecise.append("%s:%d" % (getattr(fr.mod, "name", ""), s.lineno))

            def pre():
                t = self.truth(self.eval(s.test))
                if t is False:
                    return True
                if isinstance(t, tm.T):
                    self.pc = self.pc + ((t, True),) if t.op != "not" else self.pc + ((t.args[0], False),)
                    cell["cond"] = t
                return True
            alive = self.summarise(pre, lambda: self.exec_block(s.body), None, cell, s)
            break
        if alive and s.orelse:
            alive = self.exec_block(s.orelse) is not False
        return self.join_broken(base_all, pc_all, broken, alive, na)

    def summarise(self, pre, body, sym, dom, node):
        """abstract loop: generic iteration with placeholders for loop-carried state"""
        self.stats["loops"] += 1
        fr = self.frames[-1]
        base, pc0 = self.heap, self.pc
        names = self.reverse_names(fr)
        self.loop_depth += 1
        try:
            # pass 1: what changes
            self.muted += 1
            try:
                d1, _, _ = self.run_iter(base, pc0, pre, body)
            finally:
                self.muted -= 1
            if d1 is None:
                # body never completes normally (always returns/raises)
                self.pc = pc0
                self.heap = Layer(base)
                na = len(fr.abrupt)
                pre()
                r = body()
                d2, outs = self.heap.delta(base), fr.abrupt[na:]
                fr.abrupt[na:] = [x for x in outs if x[0] == "return"]
                if r is False and not [x for x in outs if x[0] != "return"]:
                    # may also run zero times
                    self.heap, self.pc = Layer(base), pc0
                    return True
            start, mus = self.widen(base, d1 or {}, names)
            h0 = Layer(base)
            h0.d.update(start)
            d2, rets, _ = self.run_iter(h0, pc0, pre, body)
            if d2 is None:
                self.heap, self.pc = base, pc0
                return True
            full = dict(start)
            full.update(d2)
            final = self.finish_loop(base, full, mus, sym, dom, node)
        finally:
            self.loop_depth -= 1
        if rets:
            fr.abrupt.extend(rets)
            self.heap = Layer(base)
            self.heap.d.update(final)
        else:
            base.d.update(final)
            self.heap = base
        self.pc = pc0
        return True

    def run_iter(self, base, pc0, pre, body):
        fr = self.frames[-1]
        na = len(fr.abrupt)
        self.heap = Layer(base)
        self.pc = pc0
        pre()
        pc1 = self.pc
        alive = body() is not False
        mine = fr.abrupt[na:]
        fr.abrupt[na:] = []
        rets = [x for x in mine if x[0] == "return"]
        outs = [(pc, h.delta(base), None) for (k, pc, h, _) in mine if k != "return"]
        if alive:
            outs.append((self.pc, self.heap.delta(base), None))
        self.heap, self.pc = base, pc0
        if not outs:
            return None, rets, None
        if len(outs) == 1:
            return outs[0][1], rets, None
        d, _ = self.merge_outcomes(base, pc1, outs)
        return d, rets, None

    def reverse_names(self, fr):
        out = {}
        en = self.node(fr.env)
        for k in sorted(en.vars):
            v = en.vars[k]
            if isinstance(v, Arr):
                out.setdefault(v.buf, k)
            elif isinstance(v, Ref):
                out.setdefault(v.addr, k)
                n = self.node(v.addr)
                if isinstance(n, DA):
                    out.setdefault(n.buf, k)
        return out

    def widen(self, base, d1, names):
        """placeholders for state changed by the loop body"""
        start, mus = {}, []
        cnt = [0]
        dep = self.loop_depth

        def mu(name, initv, loc):
            m = mk("mu", dep, name)
            t = self.in_layer(base, lambda: self.term(initv)) if isinstance(initv, V) else initv
            mus.append((m, t, loc))
            return m
        dsn = None
        for a in sorted(d1):
            n0, n1 = base.get(a), d1[a]
            if n0 is None or n0 is n1:
                continue
            if isinstance(n0, Buf):
                if n0.term is n1.term:
                    continue
                nm = names.get(a)
                if nm is None:
                    if dsn is None:
                        dsn = self.ds_names(base)
                    nm = dsn.get(a)
                if nm is None:
                    cnt[0] += 1
                    nm = "b%d" % cnt[0]
                start[a] = Buf(mu(nm, n0.term, ("buf", a)), n0.owner)
            elif isinstance(n0, (Env, Obj, Dct)):
                vs0 = n0.vars if isinstance(n0, Env) else n0.fields if isinstance(n0, Obj) else n0.items
                vs1 = n1.vars if isinstance(n1, Env) else n1.fields if isinstance(n1, Obj) else n1.items
                nv = dict(vs0)
                ch = False
                for k in vs0:
                    v0, v1 = vs0[k], vs1.get(k)
                    if v1 is None or v0 == v1:
                        continue
                    if isinstance(v0, (K, Num)) and isinstance(v1, (K, Num, Arr)):
                        if isinstance(v0, K) and (v0.val is None or isinstance(v0.val, str)):
                            continue
                        kd = self.kind_of(v1)
                        nv[k] = Num(mu("%s" % (k,), v0, ("var", a, k)), kd if kd != "bool" else "scalar")
                        ch = True
                    elif isinstance(v0, Arr):
                        b = self.next
                        self.next += 1
                        start[b] = Buf(mu("%s" % (k,), v0, ("var", a, k)))
                        nv[k] = Arr(b)
                        ch = True
                if ch:
                    if isinstance(n0, Env):
                        start[a] = Env(nv, n0.parent)
                    elif isinstance(n0, Obj):
                        start[a] = Obj(n0.cls, nv)
                    else:
                        start[a] = n0.but(items=nv)
            elif isinstance(n0, DS):
                nv = dict(n0.vars)
                ch = False
                for k in n0.vars:
                    if k in n1.vars and n1.vars[k] != n0.vars[k]:
                        da = base.get(n0.vars[k])
                        t0 = self.in_layer(base, lambda: self.view(da.buf, da.path))
                        ba, aa = self.next, self.next + 1
                        self.next += 2
                        start[ba] = Buf(mu("ds." + k, t0, ("dsvar", a, k)), base.get(da.buf).owner)
                        start[aa] = da.but(buf=ba, path=())
                        nv[k] = aa
                        ch = True
                if ch:
                    start[a] = n0.but(vars=nv)
        return start, mus

    def ds_names(self, base):
        out = {}
        seen = set()
        l = base
        while l is not None:
            for a, n in l.d.items():
                if a in seen:
                    continue
                seen.add(a)
                if isinstance(n, DS):
                    for k, x in n.vars.items():
                        d = base.get(x)
                        if isinstance(d, DA):
                            out[d.buf] = "ds." + k
            l = l.parent
        return out

    def finish_loop(self, base, d2, mus, sym, dom, node):
        h2 = Layer(base)
        h2.d.update(d2)
        isw = isinstance(dom, dict)
        domt = mk("while", dom.get("cond", tm.TRUE)) if isw else (dom if dom is not None else mk("dom?"))

        def post_of(loc):
            if loc[0] == "buf":
                return h2.get(loc[1]).term
            if loc[0] == "var":
                n = h2.get(loc[1])
                vs = n.vars if isinstance(n, Env) else n.fields if isinstance(n, Obj) else n.items
                v = vs.get(loc[2])
                if v is None or v is UNBOUND:
                    return tm.NONE
                return self.in_layer(h2, lambda: self.term(v))
            da = h2.get(h2.get(loc[1]).vars[loc[2]])
            return self.in_layer(h2, lambda: self.view(da.buf, da.path))
        posts = {}
        inits = {}
        for m, t0, loc in mus:
            p = post_of(loc)
            posts[m] = tm.phi(mk("unk", "mu"), posts[m], p) if m in posts and posts[m] is not p else p
            inits[m] = t0
        mset = set(posts)
        uses = {}
        for m, p in posts.items():
            uses[m] = {x for x in mset if tm.contains(p, lambda y, x=x: y is x)}
        repl = {}
        indom = {x for x in mset if tm.contains(domt, lambda y, x=x: y is x)}

        def closed(m, reach, first=()):
            """recurrence system of m (and of what decides when the loop ends), its loop symbols bound"""
            st = list(indom - reach)
            while st:
                x = st.pop()
                if x not in reach:
                    reach.add(x)
                    st.extend(uses[x])
            reach -= set(first)
            xs = list(first) + sorted(reach, key=lambda z: z.id)
            b = tm.binder([posts[x] for x in xs] + [domt], sym, xs)
            sysx = []
            for x in xs:
                sysx += [b[x], inits[x], tm.subst(posts[x], b)]
            return mk("loop", tm.subst(domt, b), b[m], *sysx)
        for m in mset:
            reach, st = set(), [m]
            while st:
                x = st.pop()
                for y in uses[x]:
                    if y not in reach:
                        reach.add(y)
                        st.append(y)
            if m in uses[m] or m in reach:
                reach.add(m)
                repl[m] = closed(m, reach)
            elif not uses[m] and not reach:
                repl[m] = self.last(posts[m], sym, domt)
            else:
                repl[m] = closed(m, reach, (m,))
        # loop-carried value seen inside the body after the loop = accumulated value
        final_of = {}
        for m in mset:
            if m in uses[m] or (repl[m].op == "loop"):
                final_of[m] = repl[m]
            else:
                final_of[m] = repl[m]
        seed = dict(repl)
        if sym is not None:
            for m in mset:
                if m in uses[m] and tm.row_local(list(posts.values()), m, sym):
                    # each iteration reads and writes only its own row: it starts from the initial row
                    seed[m] = inits[m]
        out = {}
        memo = {}

        def st(t):
            return tm.subst(t, seed, memo) if mset else t
        muloc = {}
        for m, t0, loc in mus:
            muloc[loc] = m

        def sv(v):
            return self.map_terms(v, st)
        wsys = tuple((m, inits[m], posts[m]) for m in sorted(mset, key=lambda z: z.id))
        seg_dom = ("while", dom.get("cond"), wsys) if isw else dom
        for a, n in d2.items():
            n0 = base.get(a)
            if isinstance(n, Buf):
                m = muloc.get(("buf", a))
                if m is not None:
                    out[a] = Buf(repl[m], n.owner)
                else:
                    out[a] = Buf(st(n.term), n.owner)
            elif isinstance(n, Env):
                vs = {}
                for k, v in n.vars.items():
                    m = muloc.get(("var", a, k))
                    if m is not None:
                        if isinstance(v, Arr):
                            b = self.next
                            self.next += 1
                            out[b] = Buf(repl[m])
                            vs[k] = Arr(b)
                        else:
                            vs[k] = Num(repl[m], self.kind_of(v))
                    elif n0 is not None and isinstance(v, Ref) and k in n0.vars and isinstance(n0.vars[k], Ref) \
                            and n0.vars[k] != v and isinstance(h2.get(v.addr), Lst) \
                            and isinstance(base.get(n0.vars[k].addr), Lst):
                        vs[k] = v
                    else:
                        vs[k] = sv(v)
                out[a] = Env(vs, n.parent)
            elif isinstance(n, Obj):
                fs = {}
                for k, v in n.fields.items():
                    m = muloc.get(("var", a, k))
                    fs[k] = Num(repl[m], self.kind_of(v)) if m is not None and not isinstance(v, Arr) else sv(v)
                out[a] = Obj(n.cls, fs)
            elif isinstance(n, Dct):
                it = {}
                for k, v in n.items.items():
                    m = muloc.get(("var", a, k))
                    it[k] = Num(repl[m], self.kind_of(v)) if m is not None else sv(v)
                out[a] = n.but(items=it)
            elif isinstance(n, Lst):
                s0 = n0.segs if isinstance(n0, Lst) else None
                if s0 is not None and n.segs[:len(s0)] == s0 and len(n.segs) > len(s0):
                    out[a] = Lst(list(s0) + [self.loop_seg(n.segs[len(s0):], h2, st, sym, dom, inits, posts, node,
                                                           seg_dom)])
                elif s0 is not None and n.segs != s0:
                    out[a] = Lst([self.map_seg(x, st) for x in n.segs])
                else:
                    out[a] = Lst([self.map_seg(x, st) for x in n.segs])
            else:
                out[a] = n
        # variables rebound to a longer list
        for a, n in list(out.items()):
            n0 = base.get(a)
            if isinstance(n, Env) and isinstance(n0, Env):
                for k, v in n.vars.items():
                    o = n0.vars.get(k)
                    if isinstance(v, Ref) and isinstance(o, Ref) and v != o:
                        l1 = out.get(v.addr) or base.get(v.addr)
                        l0 = base.get(o.addr)
                        if isinstance(l1, Lst) and isinstance(l0, Lst) and l1.segs[:len(l0.segs)] == l0.segs \
                                and len(l1.segs) > len(l0.segs):
                            pre = self.concat.get(v.addr, (None, None))
                            if v.addr in d2:
                                seg = self.loop_seg(d2[v.addr].segs[len(l0.segs):], h2, st, sym, dom, inits, posts,
                                                    node, seg_dom, pre[1] == o.addr and pre[0] != o.addr)
                            else:
                                seg = ("gen", l1.segs[len(l0.segs):], sym, seg_dom)
                            out[v.addr] = Lst(list(l0.segs) + [seg])
        for m, t0, loc in mus:
            if loc[0] == "dsvar":
                da_addr = d2[loc[1]].vars[loc[2]] if loc[1] in d2 else base.get(loc[1]).vars[loc[2]]
                da = h2.get(da_addr)
                if da.path == ():
                    out[da.buf] = Buf(repl[m], h2.get(da.buf).owner)
        self.loop_done(node, domt, seg_dom, wsys)
        return out

    def loop_done(self, node, domt, seg_dom, wsys):
        pass

    def loop_seg(self, new, h2, st, sym, dom, inits, posts, node, seg_dom, prepend=False):
        """list segment for the elements one loop iteration appends"""
        if len(new) == 1:
            seg = self.merge_chunks(new[0], h2, sym, dom, inits, posts, node, prepend)
            if seg is not None:
                return seg
        if prepend:
            seg_dom = mk("dom", mk("unk", "prepended"))
        return ("gen", tuple(self.freeze_seg(x, h2, st) for x in new), sym, seg_dom)

    def merge_chunks(self, seg, h2, sym, dom, inits, posts, node, prepend=False):
        """an outer loop appending f(k) for k in a range that follows from the loop counter: the same list as one
        loop over the union of the ranges, when these tile it in order (decided on the index recurrence alone)"""
        from . import tiling
        if seg[0] != "gen" or len(seg[1]) != 1 or seg[1][0][0] != "item" or not isinstance(seg[3], tm.T):
            return None
        f = self.freeze_seg(seg, h2, None)
        v, sy, rng = f[1][0][1], f[2], f[3]
        if rng.op != "range" or sy is None:
            return None
        isw = isinstance(dom, dict)
        e = mk("gix", "chunk")
        a, b, s = rng.args
        back = {sy: tm.mul(tm.add(e, tm.neg(a)), tm.power(s, tm.c(-1)))}
        v2 = self.map_terms(v, lambda t: tm.subst(t, back))
        vt = self.term(v2)
        ctr = list(posts) if isw else [sym]
        for m, p in posts.items():
            # state the elements share: each element reads and writes only its own row of it
            if tm.contains(vt, lambda y, m=m: y is m) and tm.row_local([p], m, tm.add(tm.mul(sy, s), a)) and tm.row_local([vt], m, e):
                init = {m: inits[m]}
                v2 = self.map_terms(v2, lambda t: tm.subst(t, init))
                vt = self.term(v2)
        if any(tm.contains(vt, lambda y, x=x: y is x) for x in ctr if x is not None):
            return None
        if isw:
            res = tiling.while_tiles(dom.get("cond"), inits, posts, a, b, s, prepend)
        elif isinstance(dom, tm.T):
            res = tiling.for_tiles(dom, sym, a, b, s, prepend)
        else:
            return None
        if res is None:
            return None
        if res[0] is False:
            self.event("tiling", node, example=res[1])
            return None
        n = res[1]
        d0 = self.loop_depth - 1

        def shift(t):
            if t.op in ("mu", "gix") and isinstance(t.args[0], int) and t.args[0] > d0:
                return mk(t.op, t.args[0] - 1, *t.args[1:])
            return None
        sy2 = mk("gix", d0)
        v3 = self.map_terms(v2, lambda t: tm.subst(tm.transform(t, shift), {e: sy2}))
        return ("gen", (("item", v3),), sy2, mk("range", tm.ZERO, n, tm.ONE))

    def last(self, t, sym, domt):
        if sym is not None and tm.contains(t, lambda x: x is sym):
            b = tm.binder([t], sym)
            return mk("last", tm.subst(t, b), domt, b[sym])
        return t

    # ------------------------------------------------------------ generic list segments
    def freeze(self, v, h=None, st=None):
        def f():
            return self._freeze(v)
        r = self.in_layer(h, f) if h is not None else f()
        return self.map_terms(r, st) if st else r

    def _freeze(self, v):
        if isinstance(v, Arr):
            return Num(self.term(v), "arr")
        if isinstance(v, Tup):
            return Tup([self._freeze(x) for x in v.items])
        if isinstance(v, Ref):
            n = self.node(v.addr)
            if isinstance(n, DA):
                return Num(self.term(v), "da")
            if isinstance(n, Lst):
                if n.concrete():
                    return Tup([self._freeze(x) for x in n.items()])
                return Num(self.lst_term(n), "arr")
        if isinstance(v, Choice):
            return Choice(v.cond, self._freeze(v.a), self._freeze(v.b))
        return v

    def freeze_seg(self, s, h=None, st=None):
        if s[0] == "item":
            return ("item", self.freeze(s[1], h, st))
        if s[0] == "opt":
            return ("opt", st(s[1]) if st else s[1], self.freeze_seg(s[2], h, st))
        return ("gen", tuple(self.freeze_seg(x, h, st) for x in s[1]), s[2], s[3])

    def map_seg(self, s, f):
        if s[0] == "item":
            return ("item", self.map_terms(s[1], f))
        if s[0] == "opt":
            return ("opt", f(s[1]), self.map_seg(s[2], f))
        return ("gen", tuple(self.map_seg(x, f) for x in s[1]), s[2], s[3])

    def map_terms(self, v, f):
        if isinstance(v, Num):
            t = f(v.term)
            return v if t is v.term else Num(t, v.kind, v.meta)
        if isinstance(v, Tup):
            return Tup([self.map_terms(x, f) for x in v.items])
        if isinstance(v, Choice):
            return Choice(f(v.cond), self.map_terms(v.a, f), self.map_terms(v.b, f))
        return v

    def flat_gen(self, seg):
        """('gen', ...) nest -> (item value, innermost sym) when it is a single-item nest"""
        while seg[0] == "gen" and len(seg[1]) == 1:
            inner = seg[1][0]
            if inner[0] == "item":
                return inner[1], seg[2]
            seg = inner
        return None, None

    def gen_elem(self, seg, sy):
        """element of a generic segment at index symbol sy"""
        v, sym = self.flat_gen(seg)
        if v is None:
            vs = []

            def rec(s):
                for x in s[1]:
                    if x[0] == "item":
                        vs.append(self.term(x[1]))
                    elif x[0] == "opt":
                        vs.append(self.term(x[2][1]))
                    else:
                        rec(x)
            rec(seg)
            return Num(mk("elem", *vs))
        if sym is None or sym is sy:
            return v
        return self.map_terms(v, lambda t: tm.subst(t, {sym: sy}))

    # ------------------------------------------------------------ names
    def func_locals(self, fn):
        r = self.localsc.get(id(fn))
        if r is None:
            r = (_assigned_names(fn), fn)
            self.localsc[id(fn)] = r
        return r[0]

    def lookup(self, name, node=None):
        fr = self.frames[-1]
        if fr.locals is not None and name in fr.globals_:
            v = self.node(fr.mod.env).vars.get(name)
            if v is not None:
                return v
        a = fr.env
        first = True
        while a is not None:
            en = self.node(a)
            v = en.vars.get(name)
            if v is not None and v is not UNBOUND:
                return self.resolve(v)
            if first and fr.locals is not None and name in fr.locals:
                self.throw("UnboundLocalError", name, node)
            first = False
            a = en.parent
        if fr.mod is not None:
            v = self.node(fr.mod.env).vars.get(name)
            if v is not None and v is not UNBOUND:
                return self.resolve(v)
        b = self.builtin(name)
        if b is not None:
            return b
        self.throw("NameError", name, node)

    def resolve(self, v):
        """select gate branches already decided on this path"""
        if not self.pc:
            return v
        if isinstance(v, Num) and v.term.op == "phi":
            t = v.term
            while t.op == "phi":
                k = self.known(t.args[0])
                if k is None:
                    break
                t = t.args[1] if k else t.args[2]
            if t is not v.term:
                if t.op == "c":
                    return K(t.args[0])
                return Num(t, v.kind, v.meta)
        if isinstance(v, Choice):
            k = self.known(v.cond)
            if k is not None:
                return self.resolve(v.a if k else v.b)
        return v

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s" % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return K(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Tuple(self, e):
        return Tup(self.eval_items(e.elts))

    def e_List(self, e):
        return Ref(self.new(Lst(self.eval_segs(e.elts))))

    def eval_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                its = self.unpack_any(v)
                if its is None:
                    out.append(Num(mk("star", self.term(v))))
                else:
                    out.extend(its)
            else:
                out.append(self.eval(x))
        return out

    def eval_segs(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_segs(self.eval(x.value), x))
            else:
                out.append(("item", self.eval(x)))
        return out

    def e_Set(self, e):
        return Ref(self.new(St(dict.fromkeys(self.eval_items(e.elts)))))

    def e_Dict(self, e):
        items, extra = {}, []
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v)
                if isinstance(o, Choice):
                    o = o.a
                if isinstance(o, Ref) and isinstance(self.node(o.addr), Dct):
                    items.update(self.node(o.addr).items)
                continue
            kv = self.eval(k)
            vv = self.box(self.eval(v))
            pk = self.pykey(kv)
            if pk is None:
                extra.append((self.term(kv), vv))
            else:
                items[pk[0]] = vv
        return Ref(self.new(Dct(items, tuple(extra))))

    def pykey(self, v):
        """(python key,) for a concrete key, else None"""
        if isinstance(v, K):
            return (v.val,)
        if isinstance(v, Tup):
            ks = [self.pykey(x) for x in v.items]
            if all(k is not None for k in ks):
                return (tuple(k[0] for k in ks),)
        if isinstance(v, (ExtV, ClassV, FuncV)):
            return (v,)
        return None

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr, e)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        return self.getitem(o, k, e)

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.eval(x)  # noqa
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e):
        return self.eval(e.value)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.box(self.eval(e.value))
        self.bind(e.target.id, v)
        return v

    def e_UnaryOp(self, e):
        return self.unop(type(e.op).__name__, self.eval(e.operand), e)

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right), e)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = []
        pc0 = self.pc
        try:
            for i, x in enumerate(e.values):
                try:
                    v = self.eval(x)
                except AbsRaise:
                    if not acc:
                        raise
                    # guarded operand that cannot be evaluated on this path
                    break
                t = self.truth(v)
                if t is True or t is False:
                    if t is (not isand):
                        if not acc:
                            return v
                        return self.boolres(isand, acc + [(v, c(t))])
                    if not acc and i == len(e.values) - 1:
                        return v
                    if acc:
                        acc.append((v, c(t)))
                    continue
                acc.append((v, t))
                if t.op == "not":
                    self.pc = self.pc + ((t.args[0], not isand),)
                else:
                    self.pc = self.pc + ((t, isand),)
        finally:
            self.pc = pc0
        if not acc:
            return v
        return self.boolres(isand, acc)

    def boolres(self, isand, acc):
        if all(isinstance(v, (K, Num, Arr, Choice, Tup)) or True for v, _ in acc):
            ts = [t for _, t in acc]
            vals = [v for v, _ in acc]
            if all(isinstance(v, K) and isinstance(v.val, bool) or isinstance(v, Num) and (
                    tm.isbool(v.term) or v.kind in ("bool", "unk", "scalar", "arr")) or not isinstance(v, (Num, K))
                   for v in vals):
                t = tm.land(*ts) if isand else tm.lor(*ts)
                if t.op == "c":
                    return K(t.args[0])
                return Num(t, "bool")
        t = tm.land(*ts) if isand else tm.lor(*ts)
        return Num(t, "bool")

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right, e)
            if res is None:
                res = v
            else:
                a, b = self.truth(res), self.truth(v)
                a = a if isinstance(a, tm.T) else c(a)
                b = b if isinstance(b, tm.T) else c(b)
                t = tm.land(a, b)
                res = K(t.args[0]) if t.op == "c" else Num(t, "bool")
            left = right
        return res

    def e_IfExp(self, e):
        cv = self.truth(self.eval(e.test))
        if cv is True:
            return self.eval(e.body)
        if cv is False:
            return self.eval(e.orelse)
        return self.fork_value(cv, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        defaults = [self.eval(d) for d in e.args.defaults]
        return FuncV(e, fr.env if (fr.locals is not None or fr.env != fr.mod.env) else None, fr.mod, "<lambda>",
                     defaults, [None if d is None else self.eval(d) for d in e.args.kw_defaults],
                     qual=fr.mod.name + "." + fr.func + ".<lambda>")

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                v = self.eval(x.value)
                if x.format_spec is not None:
                    sp = self.eval(x.format_spec)
                    if isinstance(v, K) and isinstance(sp, K):
                        try:
                            v = K(format(v.val, sp.val))
                        except Exception:
                            v = Num(mk("fmt", self.term(v), self.term(sp)), "str")
                    else:
                        v = Num(mk("fmt", self.term(v), self.term(sp)), "str")
                elif x.conversion == 114 and isinstance(v, K):
                    v = K(repr(v.val))
                parts.append(v)
        if all(isinstance(p, K) for p in parts):
            return K("".join(str(p.val) for p in parts))
        return Num(mk("str", *[self.term(p) for p in parts]), "str")

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        return NONE

    # comprehensions -------------------------------------------------
    def comp(self, gens, emit):
        """evaluates nested generators; emit() returns a segment list for one element; result: segments"""
        fr = self.frames[-1]
        names = set()
        for g in gens:
            for w in ast.walk(g.target):
                if isinstance(w, ast.Name):
                    names.add(w.id)
        env = self.new(Env({}, fr.env))
        nf = Frame(fr.func, fr.mod, env, set(), fr.cls, fr.self_)
        nf.locals = set()
        nf.line = fr.line
        nf.randn = fr.randn
        first = self.eval(gens[0].iter)
        self.frames.append(nf)
        try:
            return self._comp(gens, 0, emit, first)
        finally:
            self.frames.pop()

    def _comp(self, gens, i, emit, itv=None):
        g = gens[i]
        segs = self.iter_segs(itv if itv is not None else self.eval(g.iter), g.iter)
        out = []

        def body():
            conds = []
            for f in g.ifs:
                t = self.truth(self.eval(f))
                if t is False:
                    return []
                if isinstance(t, tm.T):
                    conds.append(t)
            r = emit() if i + 1 == len(gens) else self._comp(gens, i + 1, emit)
            for t in conds:
                r = [("opt", t, x) for x in r]
            return r
        for seg in segs:
            if seg[0] == "item":
                self.assign(g.target, seg[1])
                out.extend(body())
            elif seg[0] == "opt":
                self.assign(g.target, seg[2][1])
                out.extend(("opt", seg[1], x) for x in body())
            else:
                sy = self.gix()
                self.loop_depth += 1
                try:
                    self.assign(g.target, self.gen_elem(seg, sy))
                    b = body()
                finally:
                    self.loop_depth -= 1
                if b:
                    out.append(("gen", tuple(self.freeze_seg(x) for x in b), sy, self.gen_dom(seg)))
        return out

    def gen_dom(self, seg):
        return seg[3]

    def e_ListComp(self, e):
        return Ref(self.new(Lst(self.comp(e.generators, lambda: [("item", self.box(self.eval(e.elt)))]))))

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        segs = self.comp(e.generators, lambda: [("item", self.eval(e.elt))])
        if all(s[0] == "item" for s in segs):
            return Ref(self.new(St(dict.fromkeys(s[1] for s in segs))))
        return Ref(self.new(Lst(segs)))

    def e_DictComp(self, e):
        segs = self.comp(e.generators, lambda: [("item", Tup([self.eval(e.key), self.box(self.eval(e.value))]))])
        return self.dict_from_segs(segs)

    def dict_from_segs(self, segs):
        items, extra = {}, []
        for s in segs:
            v = s[1] if s[0] == "item" else s[2][1] if s[0] == "opt" else None
            if v is None:
                v = self.gen_elem(s, self.gix())
            if not isinstance(v, Tup):
                u = self.unpack_any(v)
                if u is None:
                    extra.append((self.term(v), Num(self.term(v))))
                    continue
                v = Tup(u)
            pk = self.pykey(v.items[0])
            if pk is None:
                extra.append((self.term(v.items[0]), v.items[1]))
            else:
                items[pk[0]] = v.items[1]
        return Ref(self.new(Dct(items, tuple(extra))))

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            return SuperV(fr.cls, fr.self_)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            fr = self.frames[-1]
            return Ref(self.new(Dct({k: v for k, v in self.node(fr.env).vars.items() if v is not UNBOUND})))
        if isinstance(e.func, ast.Name) and e.func.id == "eval" and len(e.args) >= 1:
            s = self.eval(e.args[0])
            if isinstance(s, K) and isinstance(s.val, str):
                try:
                    tree = ast.parse(s.val.strip(), mode="eval").body
                except SyntaxError:
                    self.throw("SyntaxError", s.val, e)
                for w in ast.walk(tree):
                    if hasattr(w, "lineno"):
                        w.lineno = e.lineno
                return self.eval(tree)
            return Num(mk("unk", "eval"))
        f = self.eval(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                its = self.unpack_any(v)
                if its is None:
                    args.append(Num(mk("star", self.term(v))))
                else:
                    args.extend(its)
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.node(v.addr), Dct):
                    for kk, vv in self.node(v.addr).items.items():
                        if kk in kwargs:
                            self.throw("TypeError", "multiple values for keyword argument %r" % (kk,), e)
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                if k.arg in kwargs:
                    self.throw("TypeError", "multiple values for keyword argument %r" % (k.arg,), e)
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Choice):
            return self.fork_value(f.cond, lambda: self.call(f.a, args, kwargs, node),
                                   lambda: self.call(f.b, args, kwargs, node))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + list(args), {**f.kwargs, **kwargs}, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kwargs, node)
        if isinstance(f, ExtM):
            return self.call_method(f.recv, f.name, args, kwargs, node)
        if isinstance(f, K):
            self.throw("TypeError", "%r is not callable" % (f.val,), node)
        if isinstance(f, Ref) and isinstance(self.node(f.addr), Obj):
            m, _ = self.node(f.addr).cls.find("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kwargs, node)
        # unknown callable (interpolator objects, pint quantities...)
        return self.num(mk("call", self.term(f), *self.argterms(args, kwargs)))

    def instantiate(self, k, args, kwargs, node):
        for b in k.mro():
            for x in b.bases:
                if isinstance(x, ExtV) and x.name.split(".")[-1] in ("Exception", "ValueError"):
                    return Num(mk("unk", "exc"))
        a = self.new(Obj(k, {}))
        r = Ref(a)
        init, owner = k.find("__init__")
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs, node)
        return r

    def call_func(self, f, args, kwargs, node=None):
        q = f.qual
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, f, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if f.kind == "staticmethod" and f.owner is not None and args and getattr(node, "_bound", False):
            pass
        depth = len(self.frames)
        if depth > MAXDEPTH or sum(1 for fr in self.frames if fr.node is f.node) > 3:
            return Num(mk("unk", "recursion"))
        self.stats["calls"] += 1
        self.stats["funcs"].add(q)
        a = f.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kwn = [x.arg for x in a.kwonlyargs]
        args = list(args)
        extra = []
        if len(args) > len(pos):
            extra = args[len(pos):]
            args = args[:len(pos)]
            if a.vararg is None:
                if any(isinstance(x, Num) and x.term.op == "star" for x in args + extra):
                    extra = []
                else:
                    self.throw("TypeError", "%s() takes %d positional arguments" % (f.name, len(pos)), node)
        for n, v in zip(pos, args):
            loc[n] = self.box(v)
        rest = {}
        for kname, v in kwargs.items():
            if kname in loc:
                self.throw("TypeError", "%s() got multiple values for argument '%s'" % (f.name, kname), node)
            if kname in pos or kname in kwn:
                loc[kname] = self.box(v)
            elif a.kwarg is not None:
                rest[kname] = self.box(v)
            elif kname == "**":
                pass
            else:
                self.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, kname), node)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j >= 0:
                    loc[n] = f.defaults[j]
                elif "**" in kwargs:
                    loc[n] = Num(mk("unk", "kwargs"))
                else:
                    self.throw("TypeError", "%s() missing argument '%s'" % (f.name, n), node)
        for n, d in zip(kwn, f.kwdefaults):
            if n not in loc:
                if d is None:
                    self.throw("TypeError", "%s() missing keyword argument '%s'" % (f.name, n), node)
                loc[n] = d
        if a.vararg is not None:
            loc[a.vararg.arg] = Tup([self.box(x) for x in extra])
        if a.kwarg is not None:
            loc[a.kwarg.arg] = Ref(self.new(Dct(rest)))
        if q in self.watch or f.name in self.watch:
            self.event("call", node, qual=q, name=f.name, args=dict(loc))
        base, pc0 = self.heap, self.pc
        self.heap = Layer(base)
        env = self.new(Env(loc, f.env))
        fr = Frame(f.name, f.mod, env, self.func_locals(f.node) | set(loc), f.owner,
                   args[0] if (f.owner is not None and args and f.kind != "staticmethod") else None)
        fr.node = f.node
        fr.line = f.node.lineno
        if len(self.frames):
            self.frames[-1].line = getattr(node, "lineno", self.frames[-1].line)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                outs = [(self.pc, self.heap.delta(base), v)]
            else:
                alive = self.exec_block(f.node.body) is not False
                outs = [(pc, hp.delta(base), v) for (k, pc, hp, v) in fr.abrupt if k == "return"]
                if alive:
                    outs.append((self.pc, self.heap.delta(base), NONE))
        except AbsRaise:
            # paths that returned before the raise are kept; the raising path is dropped
            outs = [(pc, hp.delta(base), v) for (k, pc, hp, v) in fr.abrupt if k == "return"]
            if not outs:
                base.d.update(self.heap.delta(base)) if self._above(self.heap, base) else None
                self.heap, self.pc = base, pc0
                raise
        finally:
            self.frames.pop()
        self.heap, self.pc = base, pc0
        if not outs:
            raise AbsRaise("Exception", "no return")
        d, v = self.merge_outcomes(base, pc0, outs)
        base.d.update(d)
        if len(outs) == 1 and len(outs[0][0]) > len(pc0):
            # every other path of the callee raised: its condition is known from here on
            self.pc = outs[0][0]
        return v

    def _above(self, h, base):
        while h is not None:
            if h is base:
                return True
            h = h.parent
        return False
