"""Decides from a loop's index recurrence whether the ranges of its iterations tile 0..N exactly once and in order."""
from . import terms as tm
from .terms import c

OPAQUE = ("idx", "dim", "in", "opt", "par", "m", "gix", "len", "size")


class Stop(Exception):
    pass


def ev(t, env):
    v = env.get(t)
    if v is not None:
        return v
    op, a = t.op, t.args
    if op == "c":
        if isinstance(a[0], (int, float, bool)):
            return a[0]
        raise Stop
    if op == "add":
        return sum(ev(x, env) for x in a)
    if op == "mul":
        r = 1
        for x in a:
            r = r * ev(x, env)
        return r
    if op == "pow":
        x, y = ev(a[0], env), ev(a[1], env)
        if x == 0 and y < 0:
            raise Stop
        return x ** y
    if op == "lt":
        return ev(a[0], env) < ev(a[1], env)
    if op == "le":
        return ev(a[0], env) <= ev(a[1], env)
    if op == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if op == "not":
        return not ev(a[0], env)
    if op == "and":
        return all(ev(x, env) for x in a)
    if op == "or":
        return any(ev(x, env) for x in a)
    if op in ("phi", "where"):
        return ev(a[1] if ev(a[0], env) else a[2], env)
    if op == "min":
        return min(ev(x, env) for x in a)
    if op == "max":
        return max(ev(x, env) for x in a)
    if op in ("floordiv", "floor_divide"):
        return ev(a[0], env) // ev(a[1], env)
    if op == "mod":
        return ev(a[0], env) % ev(a[1], env)
    if op in ("ceil", "floor", "int", "astype"):
        import math
        x = ev(a[0], env)
        return int(math.ceil(x)) if op == "ceil" else int(math.floor(x)) if op == "floor" else int(x)
    raise Stop


def leaves(t, known):
    """opaque subterms of an index expression"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in known:
            continue
        if x.op in ("add", "mul", "pow", "lt", "le", "eq", "not", "and", "or", "phi", "where", "min", "max", "floordiv",
                    "floor_divide", "mod", "ceil", "floor", "int", "astype"):
            st.extend(tm.kids(x))
        elif x.op == "c":
            pass
        else:
            out.add(x)
    return out


def roles(lv):
    """(size term, chunk term or None) or None"""
    ch = {x for x in lv if x.op in ("opt", "par")}
    n = lv - ch
    if len(ch) > 1 or not n:
        return None
    if len(n) > 1:
        # one array extent spelled in several ways
        if not all(x.op in ("idx", "dim", "len") and (x.op != "idx" or x.args[0].op == "dim") for x in n):
            return None
    return n, (next(iter(ch)) if ch else None)


def search(nset, ch, gen):
    for n in range(0, 10):
        for k in (range(1, 12) if ch is not None else (0,)):
            env = {x: n for x in nset}
            if ch is not None:
                env[ch] = k
            try:
                got = gen(env)
            except (Stop, ZeroDivisionError, TypeError, OverflowError):
                return None
            if got is None:
                return False, "%s items%s: index loop does not end" % (n, ", chunk %d" % k if ch is not None else "")
            if got != list(range(n)):
                return False, "%s items%s: indices %s" % (n, ", chunk %d" % k if ch is not None else "", got)
    return True, min(nset, key=lambda x: x.id)


def while_tiles(cond, inits, posts, a, b, s, prepend=False):
    if cond is None:
        return None
    # counters the index expressions use
    need = set()
    st = [cond, a, b, s]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in posts:
            need.add(x)
            st += [inits[x], posts[x]]
            continue
        st.extend(tm.kids(x) if x.op not in ("idx", "dim") else [])
    need = sorted(need, key=lambda x: x.id)
    lv = set()
    for t in [cond, a, b, s] + [inits[x] for x in need] + [posts[x] for x in need]:
        lv |= leaves(t, set(need))
    r = roles(lv)
    if r is None:
        return None

    def gen(env):
        env = dict(env)
        vals = {x: ev(inits[x], env) for x in need}
        out = []
        for it in range(60):
            e = dict(env, **{}) | vals
            if not ev(cond, e):
                return out
            new = list(range(int(ev(a, e)), int(ev(b, e)), int(ev(s, e))))
            out = new + out if prepend else out + new
            vals = {x: ev(posts[x], e) for x in need}
            if len(out) > 300:
                return out
        return None
    return search(r[0], r[1], gen)


def for_tiles(dom, sym, a, b, s, prepend=False):
    if dom.op != "range" or sym is None:
        return None
    lv = set()
    for t in list(dom.args) + [a, b, s]:
        lv |= leaves(t, {sym})
    r = roles(lv)
    if r is None:
        return None

    def gen(env):
        out = []
        lo, hi, step = [int(ev(x, env)) for x in dom.args]
        # the element at position k is expressed with the 0-based position symbol
        k = 0
        x = lo
        while (x < hi) if step > 0 else (x > hi):
            e = dict(env)
            e[sym] = k
            new = list(range(int(ev(a, e)), int(ev(b, e)), int(ev(s, e))))
            out = new + out if prepend else out + new
            x += step
            k += 1
            if k > 100:
                return None
        return out
    return search(r[0], r[1], gen)
