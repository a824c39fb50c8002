"""Hash-consed value terms.

A term is the abstract value of an expression in the value graph: a leaf (labelled input, constant, loop index,
random draw, ...) or an operator over terms.  Construction normalises (associativity and commutativity of sums
and products, constant folding, gate/where/store simplification), so two expressions that compute the same value
by the same operations in another order or spelling are the same object.
"""
import math


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __init__(self, op, args, i):
        self.op = op
        self.args = args
        self.id = i

    def __repr__(self):
        return show(self, 4)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(op, *args):
    key = (op,) + tuple((a.id,) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T(op, args, len(_tab))
        _tab[key] = t
    return t


def kids(t):
    return [a for a in t.args if isinstance(a, T)]


def show(t, depth=3):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "c":
        return repr(t.args[0])
    if not t.args:
        return t.op
    if t.op in ("in", "lut", "par", "opt", "stale", "rand", "gix", "attr", "unk", "mu", "bv", "bmu"):
        return "%s:%s" % (t.op, ":".join(show(a, 1) for a in t.args))
    if depth <= 0:
        return t.op + "(..)"
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))


# ---------------------------------------------------------------- constants
def c(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, complex)) or v is Ellipsis:
        return mk("c", v)
    if isinstance(v, int):
        return mk("c", v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float("inf"), float("-inf")):
            return mk("c", v)
        if v == int(v) and abs(v) < 1e15:
            return mk("c", int(v))
        return mk("c", float("%.12g" % v))
    return mk("c", v)


NAN = mk("nan")
TRUE = mk("c", True)
FALSE = mk("c", False)
ZERO = mk("c", 0)
ONE = mk("c", 1)
NONE = mk("c", None)


def isc(t):
    return t.op == "c"


def cval(t):
    return t.args[0] if t.op == "c" else (float("nan") if t is NAN else None)


def isnum(t):
    return t.op == "c" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- arithmetic
def _coef(t):
    """t -> (coef, rest)"""
    if t.op == "mul" and isnum(t.args[0]):
        rest = t.args[1:]
        return t.args[0].args[0], (rest[0] if len(rest) == 1 else mk("mul", *rest))
    return 1, t


def add(*xs):
    const = 0
    coefs = {}
    stack = list(xs)
    while stack:
        x = stack.pop()
        if x.op == "add":
            stack.extend(x.args)
        elif x is NAN:
            return NAN
        elif isnum(x):
            const += x.args[0]
        else:
            k, r = _coef(x)
            coefs[r] = coefs.get(r, 0) + k
    out = []
    for r in sorted(coefs, key=lambda t: t.id):
        k = coefs[r]
        if abs(k) < 1e-300 if isinstance(k, float) else k == 0:
            continue
        out.append(r if k == 1 else mul(c(k), r))
    if const != 0 or not out:
        out.insert(0, c(const))
    return out[0] if len(out) == 1 else mk("add", *out)


def neg(x):
    return mul(c(-1), x)


def sub(a, b):
    return add(a, neg(b))


def _base_exp(t):
    if t.op == "pow" and isnum(t.args[1]):
        return t.args[0], t.args[1].args[0]
    return t, 1


def mul(*xs):
    const = 1
    exps = {}
    stack = list(xs)
    while stack:
        x = stack.pop()
        if x.op == "mul":
            stack.extend(x.args)
        elif x is NAN:
            return NAN
        elif isnum(x):
            const = const * x.args[0]
        else:
            b, e = _base_exp(x)
            exps[b] = exps.get(b, 0) + e
    if const == 0:
        return ZERO
    out = []
    for b in sorted(exps, key=lambda t: t.id):
        e = exps[b]
        if e == 0:
            continue
        out.append(b if e == 1 else mk("pow", b, c(e)))
    if len(out) == 1 and out[0].op == "add" and const != 1:
        # distribute a numeric coefficient over a sum so that -(a+b) == -a-b
        return add(*[mul(c(const), a) for a in out[0].args])
    k = c(const)
    if k is not ONE or not out:
        out.insert(0, k)
    return out[0] if len(out) == 1 else mk("mul", *out)


def power(a, b):
    if a is NAN or b is NAN:
        return NAN
    if isnum(b):
        e = b.args[0]
        if e == 1:
            return a
        if e == 0:
            return ONE
        if isnum(a):
            try:
                r = a.args[0] ** e
                if isinstance(r, (int, float)):
                    return c(r)
            except Exception:
                pass
        if a.op == "pow" and isnum(a.args[1]):
            return power(a.args[0], c(a.args[1].args[0] * e))
        if a.op == "mul":
            return mul(*[power(x, b) for x in a.args])
    return mk("pow", a, b)


def div(a, b):
    if isnum(b) and b.args[0] == 0:
        return mk("div0", a)
    return mul(a, power(b, c(-1)))


_CMP = {"lt", "le", "eq", "ne", "and", "or", "not", "isnan", "isfinite", "isinf", "in", "is"}


def isbool(t):
    if t.op in ("lt", "le", "eq", "ne", "and", "or", "not", "isnan", "isfinite", "isinf", "contains", "isnull"):
        return True
    return t.op == "c" and isinstance(t.args[0], bool)


def lnot(a):
    if a.op == "not":
        return a.args[0]
    if a.op == "c":
        return FALSE if a.args[0] else TRUE
    return mk("not", a)


def _ac(op, unit, zero, xs):
    s = {}
    stack = list(xs)
    while stack:
        x = stack.pop()
        if x.op == op:
            stack.extend(x.args)
        elif x is unit:
            continue
        elif x is zero:
            return zero
        else:
            s[x] = 1
    for x in s:
        if lnot(x) in s:
            return zero
    if not s:
        return unit
    out = sorted(s, key=lambda t: t.id)
    return out[0] if len(out) == 1 else mk(op, *out)


def land(*xs):
    return _ac("and", TRUE, FALSE, xs)


def lor(*xs):
    return _ac("or", FALSE, TRUE, xs)


def _cmpfold(f, a, b):
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if f(a.args[0], b.args[0]) else FALSE
        except Exception:
            return None
    return None


def lt(a, b):
    r = _cmpfold(lambda x, y: x < y, a, b)
    return r if r is not None else mk("lt", a, b)


def le(a, b):
    r = _cmpfold(lambda x, y: x <= y, a, b)
    return r if r is not None else mk("le", a, b)


def eq(a, b):
    r = _cmpfold(lambda x, y: x == y, a, b)
    if r is not None:
        return r
    if b.id < a.id:
        a, b = b, a
    return mk("eq", a, b)


def ne(a, b):
    return lnot(eq(a, b))


# ---------------------------------------------------------------- gates and stores
def _prune(t, cond, val):
    while t.op == "phi" and t.args[0] is cond:
        t = t.args[1] if val else t.args[2]
    return t


def phi(cnd, a, b):
    if cnd is TRUE:
        return a
    if cnd is FALSE:
        return b
    if cnd.op == "not":
        return phi(cnd.args[0], b, a)
    a = _prune(a, cnd, True)
    b = _prune(b, cnd, False)
    if a is b:
        return a
    return mk("phi", cnd, a, b)


def where(cnd, a, b):
    if cnd is TRUE:
        return a
    if cnd is FALSE:
        return b
    if cnd.op == "not":
        return where(cnd.args[0], b, a)
    if a.op == "where" and a.args[0] is cnd:
        a = a.args[1]
    if b.op == "where" and b.args[0] is cnd:
        b = b.args[2]
    if a is b:
        return a
    return mk("where", cnd, a, b)


FULL = mk("slice", NONE, NONE, NONE)


def isfull(k):
    if k is FULL or (k.op == "c" and k.args[0] is Ellipsis):
        return True
    if k.op == "tup":
        return bool(k.args) and all(isfull(x) for x in k.args)
    return False


def idx(b, k):
    if isfull(k):
        return b
    if b.op == "fill":
        return b.args[0]
    if b.op == "store":
        if b.args[1] is k:
            return b.args[2]
        if distinct(b.args[1], k):
            return idx(b.args[0], k)
    if b.op == "tup" and isnum(k):
        i = k.args[0]
        if isinstance(i, int) and -len(b.args) <= i < len(b.args):
            return b.args[i]
    return mk("idx", b, k)


def distinct(k1, k2):
    if k1.op == "tup" and k2.op == "tup" and len(k1.args) == len(k2.args):
        return any(distinct(a, b) for a, b in zip(k1.args, k2.args))
    if isnum(k1) and isnum(k2):
        a, b = k1.args[0], k2.args[0]
        return a != b and (a < 0) == (b < 0)
    return False


def store(b, k, v):
    if isfull(k):
        return v
    if isbool(k) and (v.op in ("c", "nan") or v.op == "fill"):
        return where(k, v if v.op != "fill" else v.args[0], b)
    if b.op == "store" and b.args[1] is k:
        b = b.args[0]
    return mk("store", b, k, v)


# ---------------------------------------------------------------- substitution and containment
_LV = {}
BINDERS = ("map", "last", "loop")


def binds(x):
    """symbols a term binds"""
    if x.op == "loop":
        return [x.args[1]] if x.args[1].op == "bmu" else []
    if x.op in ("map", "last"):
        return [a for a in x.args[2:] if isinstance(a, T) and a.op == "bv"]
    return []


def level(t):
    """highest number of a symbol bound inside t"""
    st = [t]
    while st:
        x = st[-1]
        if x.id in _LV:
            st.pop()
            continue
        ks = [a for a in x.args if isinstance(a, T)]
        todo = [a for a in ks if a.id not in _LV]
        if todo:
            st.extend(todo)
            continue
        v = max([_LV[a.id] for a in ks], default=0)
        if x.op in BINDERS:
            v = max([v] + [b.args[0] for b in binds(x)])
        _LV[x.id] = v
        st.pop()
    return _LV[t.id]


def binder(ts, sym, mus=()):
    """substitution that turns the loop symbols of the bodies ts into bound ones, numbered above those inside"""
    k = 1 + max([level(t) for t in ts], default=0)
    r = {m: mk("bmu", k, *m.args[1:]) for m in mus}
    if sym is not None:
        r[sym] = mk("bv", k)
    return r


def renumber(t):
    """bound symbols numbered from the inside out again (simplification after binding may have removed binders)"""
    def f(x):
        if x.op not in BINDERS:
            return None
        bs = binds(x)
        if not bs:
            return None
        if x.op == "loop":
            k = bs[0].args[0]
            body = [x.args[0]] + [a for i, a in enumerate(x.args) if i > 1 and (i - 2) % 3 == 2]
            n = 1 + max(level(a) for a in body)
            if n >= k:
                return None
            own = [y for y in nodes(body + list(x.args[1:])) if y.op in ("bv", "bmu") and y.args[0] == k]
            m = {y: mk(y.op, n, *y.args[1:]) for y in own}
            return mk("loop", *[subst(a, m) if isinstance(a, T) and ((i - 2) % 3 != 1 or i < 2) else a
                                for i, a in enumerate(x.args)])
        n = level(x.args[0])
        m = {}
        for b in bs:
            n += 1
            if b.args[0] > n:
                m[b] = mk("bv", n)
        return mk(x.op, subst(x.args[0], m), x.args[1], *[m.get(a, a) if isinstance(a, T) else a for a in x.args[2:]]) \
            if m else None
    return transform(t, f)


def nodes(ts):
    seen, st = {}, list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(a for a in x.args if isinstance(a, T))
    return seen.values()


def row_local(roots, m, sym):
    """every access to the carried array m (and to what is derived from it) in the bodies is at first index sym: the
    rows do not see each other"""
    ns = list(nodes(roots))
    der = {m}
    ch = True
    while ch:
        n0 = len(der)
        for x in ns:
            if x in der:
                continue
            if x.op == "store" and x.args[0] in der:
                der.add(x)
            elif x.op == "phi" and (x.args[1] in der or x.args[2] in der):
                der.add(x)
            elif x.op == "loop" and x.args[1] in der:
                der.add(x)
        for x in ns:
            if x.op == "loop":
                for i in range(2, len(x.args), 3):
                    if x.args[i + 1] in der or x.args[i + 2] in der:
                        der.add(x.args[i])
                        if x.args[i] is x.args[1]:
                            der.add(x)
        ch = len(der) != n0

    def at(key):
        return key is sym or key.op == "tup" and key.args and key.args[0] is sym
    for x in ns:
        for i, k in enumerate(x.args):
            if not isinstance(k, T) or k not in der:
                continue
            if x.op in ("store", "idx") and i == 0 and at(x.args[1]):
                continue
            if x.op in ("phi", "loop") and i > 0:
                continue
            return False
    return True


def contains(t, pred, _memo=None):
    memo = {} if _memo is None else _memo
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            return True
        stack.extend(a for a in x.args if isinstance(a, T))
    return False


_REBUILD = {}


def rebuild(op, args):
    f = _REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def _reg():
    _REBUILD.update(add=add, mul=mul, pow=power, phi=phi, where=where, idx=idx, store=store, lt=lt, le=le, eq=eq,
                    land=land, lor=lor)
    _REBUILD["and"] = land
    _REBUILD["or"] = lor
    _REBUILD["not"] = lnot


_reg()


def subst(t, m, memo=None):
    """Replace terms by the mapping m (term -> term), bottom-up, renormalising."""
    if not m:
        return t
    memo = {} if memo is None else memo
    ids = {k.id for k in m}
    lo = min(ids)

    def go(x):
        if x in m:
            return m[x]
        if x.id < lo or not x.args:
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        ch = False
        na = []
        for a in x.args:
            if isinstance(a, T):
                b = go(a)
                ch = ch or (b is not a)
                na.append(b)
            else:
                na.append(a)
        r = rebuild(x.op, na) if ch else x
        memo[x.id] = r
        return r
    return go(t)


def transform(t, f):
    """Bottom-up rewriting: f(term) -> replacement or None."""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.args:
            na = [go(a) if isinstance(a, T) else a for a in x.args]
            y = rebuild(x.op, na) if any(p is not q for p, q in zip(na, x.args)) else x
        else:
            y = x
        z = f(y)
        r = y if z is None else z
        memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- dependence
LEAF = {"in", "lut", "par", "rand", "opt", "stale", "unk", "attr", "gix"}
_deps = {}


def _nodep_args(t):
    """children that carry no data (shapes, dimension sizes)"""
    if t.op == "dim" or t.op == "rank" or t.op == "dom":
        return []
    if t.op == "fill":
        return [t.args[0]]
    return kids(t)


def deps(t):
    """All leaf labels (as terms) the value depends on, by data or control."""
    r = _deps.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _deps:
            stack.pop()
            continue
        if x.op in LEAF:
            _deps[x.id] = frozenset((x,))
            stack.pop()
            continue
        ks = _nodep_args(x)
        todo = [a for a in ks if a.id not in _deps]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if not ks:
            _deps[x.id] = frozenset()
        elif len(ks) == 1:
            _deps[x.id] = _deps[ks[0].id]
        else:
            _deps[x.id] = frozenset().union(*[_deps[a.id] for a in ks])
    return _deps[t.id]


def labels(t, op=None):
    return {":".join(str(a) if not isinstance(a, T) else show(a) for a in x.args) for x in deps(t)
            if op is None or x.op == op}


_vdeps = {}


def vdeps(t):
    """Leaf labels reached through data only: conditions of gates/where and index positions excluded."""
    r = _vdeps.get(t.id)
    if r is not None:
        return r
    if t.op in LEAF:
        r = frozenset((t,))
    else:
        if t.op in ("phi", "where"):
            ks = list(t.args[1:])
        elif t.op == "idx":
            ks = [t.args[0]]
        elif t.op == "store":
            ks = [t.args[0], t.args[2]]
        elif isbool(t):
            ks = []
        else:
            ks = _nodep_args(t)
        r = frozenset().union(*[vdeps(a) for a in ks]) if ks else frozenset()
    _vdeps[t.id] = r
    return r


def size(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(kids(x))
    return len(seen)


def diff(a, b, path=()):
    """First structural divergence of two terms, for reports."""
    if a is b:
        return None
    if a.op != b.op or len(a.args) != len(b.args):
        return path, a, b
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if isinstance(x, T) and isinstance(y, T):
            d = diff(x, y, path + (a.op,))
            if d:
                return d
        elif x is not y and x != y:
            return path, a, b
    return path, a, b
