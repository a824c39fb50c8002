"""Abstract values and heap nodes of the interpreter (all immutable; the heap maps addresses to nodes)."""
from . import terms as tm


class V:
    __slots__ = ()


class K(V):
    """a concrete Python scalar (configuration value, literal)"""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __eq__(self, o):
        return isinstance(o, K) and type(o.val) is type(self.val) and (o.val == self.val)

    def __hash__(self):
        return hash((type(self.val).__name__, self.val))

    def __repr__(self):
        return "K(%r)" % (self.val,)


class Num(V):
    """an abstract number/array/string temporary; kind: scalar arr da q(uantity) str bool unk"""
    __slots__ = ("term", "kind", "meta")

    def __init__(self, term, kind="unk", meta=None):
        self.term = term
        self.kind = kind
        self.meta = meta

    def __eq__(self, o):
        return isinstance(o, Num) and o.term is self.term and o.kind == self.kind

    def __hash__(self):
        return hash((self.term.id, self.kind))

    def __repr__(self):
        return "Num<%s>(%r)" % (self.kind, self.term)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Slice(V):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, Slice) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))


class Arr(V):
    """numpy array object: a view path into a heap buffer"""
    __slots__ = ("buf", "path")

    def __init__(self, buf, path=()):
        self.buf = buf
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Arr) and o.buf == self.buf and o.path == self.path

    def __hash__(self):
        return hash((self.buf, self.path))

    def __repr__(self):
        return "Arr(%d%s)" % (self.buf, "".join("/" + p[0] for p in self.path))


class Ref(V):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "Ref(%d)" % self.addr


class FuncV(V):
    __slots__ = ("node", "env", "mod", "name", "defaults", "kwdefaults", "owner", "kind", "qual")

    def __init__(self, node, env, mod, name, defaults, kwdefaults, owner=None, kind=None, qual=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults, self.owner, self.kind = defaults, kwdefaults, owner, kind
        self.qual = qual or name

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.node is self.node and o.env == self.env

    def __hash__(self):
        return hash((id(self.node), self.env))

    def __repr__(self):
        return "FuncV(%s)" % self.name


class Partial(V):
    __slots__ = ("f", "args", "kwargs")

    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class BoundV(V):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func == self.func and o.self_ == self.self_

    def __hash__(self):
        return hash((self.func, self.self_))


class PropV(V):
    __slots__ = ("get", "set")

    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class ClassV(V):
    __slots__ = ("name", "bases", "attrs", "mod", "qual")

    def __init__(self, name, bases, attrs, mod, qual=None):
        self.name, self.bases, self.attrs, self.mod = name, bases, attrs, mod
        self.qual = qual or name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for m in b.mro():
                    if m not in out:
                        out.append(m)
        return out

    def find(self, name):
        for k in self.mro():
            if name in k.attrs:
                return k.attrs[name], k
        return None, None

    def __repr__(self):
        return "ClassV(%s)" % self.name


class SuperV(V):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ModV(V):
    __slots__ = ("name", "env", "path")

    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path


class ExtV(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "ExtV(%s)" % self.name


class ExtM(V):
    """method of an abstract or builtin value"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, ExtM) and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(("extm", self.name))


class Choice(V):
    """one of two values of unlike shape, selected by a condition term"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and o.cond is self.cond and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.cond.id, self.a, self.b))


class Unbound(V):
    __slots__ = ()

    def __repr__(self):
        return "UNBOUND"


UNBOUND = Unbound()
NONE = K(None)


# ---------------------------------------------------------------- heap nodes
class Node:
    __slots__ = ()


class Buf(Node):
    __slots__ = ("term", "owner")

    def __init__(self, term, owner=None):
        self.term, self.owner = term, owner


class DA(Node):
    __slots__ = ("buf", "path", "attrs", "name", "dims", "coordof")

    def __init__(self, buf, path=(), attrs=None, name=None, dims=None, coordof=None):
        self.buf, self.path, self.attrs, self.name, self.dims, self.coordof = buf, path, attrs, name, dims, coordof

    def but(self, **kw):
        d = dict(buf=self.buf, path=self.path, attrs=self.attrs, name=self.name, dims=self.dims,
                 coordof=self.coordof)
        d.update(kw)
        return DA(**d)


class DS(Node):
    __slots__ = ("vars", "attrs", "auto", "src", "coords", "dropped", "stacked")

    def __init__(self, vars, attrs, auto=None, src=None, coords=None, dropped=frozenset(), stacked=()):
        self.vars, self.attrs, self.auto, self.src = vars, attrs, auto, src
        self.coords = coords or {}
        self.dropped = dropped
        self.stacked = stacked

    def but(self, **kw):
        d = dict(vars=self.vars, attrs=self.attrs, auto=self.auto, src=self.src, coords=self.coords,
                 dropped=self.dropped, stacked=self.stacked)
        d.update(kw)
        return DS(**d)


class Lst(Node):
    """segs: ('item', v) | ('gen', segs, sym, dom)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def concrete(self):
        return all(s[0] == "item" for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]


class Dct(Node):
    __slots__ = ("items", "extra", "auto", "maybe")

    def __init__(self, items, extra=(), auto=None, maybe=frozenset()):
        self.items, self.extra, self.auto, self.maybe = items, extra, auto, maybe

    def but(self, **kw):
        d = dict(items=self.items, extra=self.extra, auto=self.auto, maybe=self.maybe)
        d.update(kw)
        return Dct(**d)


class St(Node):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Obj(Node):
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Env(Node):
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent=None):
        self.vars, self.parent = vars, parent


class Layer:
    """a heap layer: own entries over a parent"""
    __slots__ = ("d", "parent")

    def __init__(self, parent=None):
        self.d = {}
        self.parent = parent

    def get(self, a):
        l = self
        while l is not None:
            n = l.d.get(a)
            if n is not None:
                return n
            l = l.parent
        return None

    def delta(self, base):
        """all entries above base (excluded)"""
        chain = []
        l = self
        while l is not base:
            if l is None:
                raise RuntimeError("layer is not above base")
            chain.append(l)
            l = l.parent
        out = {}
        for l in reversed(chain):
            out.update(l.d)
        return out
