"""Parameters that cannot influence a function: never read, or only forwarded to parameters that are themselves dead.

Interprocedural, over the syntax trees of the whole package; a parameter escapes (counts as used) as soon as it is read
anywhere other than as an argument of a call that resolves to a package function, or handed over in a way the binding
cannot follow."""
import ast
import os
import warnings


class Fn:
    __slots__ = ("path", "node", "cls", "mod", "params", "kwonly", "vararg", "kwarg", "doc", "uses", "live")


def _docs(node):
    d = ast.get_docstring(node) or ""
    out = set()
    for l in d.splitlines():
        a, c, b = l.strip().partition(":")
        if not c or " " in a.strip().replace(", ", ","):
            continue
        for x in a.split(","):
            if x.strip().isidentifier():
                out.add(x.strip())
    return out


def collect(paths, root):
    fns = {}
    warnings.simplefilter("ignore")
    for p in paths:
        tree = ast.parse(open(p, encoding="utf-8").read(), p)
        rel = os.path.relpath(p, root)

        def rec(n, cls):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn()
                    f.path, f.node, f.cls = rel, c, cls
                    f.params = [a.arg for a in c.args.posonlyargs + c.args.args]
                    f.kwonly = [a.arg for a in c.args.kwonlyargs]
                    f.vararg = c.args.vararg and c.args.vararg.arg
                    f.kwarg = c.args.kwarg and c.args.kwarg.arg
                    f.doc = _docs(c)
                    if c.name == "__init__" and cls is not None:
                        f.doc |= _docs(cls)
                    fns.setdefault((cls.name + "." if cls is not None else "") + c.name, []).append(f)
                    rec(c, None)
                elif isinstance(c, ast.ClassDef):
                    rec(c, c)
                else:
                    rec(c, cls)
        rec(tree, None)
    return fns


def _uses(f):
    """param -> list of None (escapes) or (callee, index|keyword)"""
    out = {p: [] for p in f.params + f.kwonly}
    handled = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            star = False
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    star = True
                elif isinstance(a, ast.Name) and a.id in out and not star:
                    out[a.id].append((n.func.id, i))
                    handled.add(id(a))
            for k in n.keywords:
                if k.arg and isinstance(k.value, ast.Name) and k.value.id in out:
                    out[k.value.id].append((n.func.id, k.arg))
                    handled.add(id(k.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval"):
            for p in out:
                out[p].append(None)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in out and id(n) not in handled:
            out[n.id].append(None)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval"):
            for p in out:
                out[p].append(None)
    return out


def dead(paths, root):
    """[(Fn, param)] of documented parameters of public functions without influence; number examined"""
    fns = collect(paths, root)
    every = [f for l in fns.values() for f in l]
    for f in every:
        f.uses = _uses(f)
        f.live = {p for p, u in f.uses.items() if None in u}
    changed = True

    def target_live(cal, slot):
        l = fns.get(cal)
        if not l or len(l) != 1:
            return True
        g = l[0]
        if isinstance(slot, int):
            if slot >= len(g.params):
                return True
            p = g.params[slot]
        else:
            p = slot
            if p not in g.uses:
                return True
        return p in g.live
    while changed:
        changed = False
        for f in every:
            for p, u in f.uses.items():
                if p not in f.live and any(target_live(*x) for x in u if x):
                    f.live.add(p)
                    changed = True
    out, n = [], 0
    for f in every:
        nm = f.node.name
        if nm.startswith("_") and nm != "__init__":
            continue
        body = [b for b in f.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        if not body or all(isinstance(b, (ast.Pass, ast.Raise)) for b in body):
            continue
        for p in f.params + f.kwonly:
            if p in ("self", "cls") or p not in f.doc or p.startswith("_"):
                continue
            n += 1
            if p not in f.live:
                out.append((f, p))
    return out, n
