"""Counting while-loops written as for-loops, so that both spellings are read the same way."""
import ast


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def step_of(st):
    """(name, step) of `v += k` / `v = v + k`"""
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and isinstance(st.op, (ast.Add, ast.Sub)):
        v, k, sg = st.target.id, st.value, 1 if isinstance(st.op, ast.Add) else -1
    elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(
            st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)):
        v, sg = st.targets[0].id, 1 if isinstance(st.value.op, ast.Add) else -1
        a, b = st.value.left, st.value.right
        if isinstance(a, ast.Name) and a.id == v:
            k = b
        elif isinstance(b, ast.Name) and b.id == v and sg == 1:
            k = a
        else:
            return None
    else:
        return None
    if isinstance(k, ast.Constant) and type(k.value) is int and k.value > 0:
        return v, sg * k.value
    return None


def loops_own(body, kinds):
    """statements of these kinds that belong to this loop"""
    st = list(body)
    while st:
        x = st.pop()
        if isinstance(x, kinds):
            return True
        if isinstance(x, (ast.For, ast.While)):
            st += x.orelse
            continue
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        st += list(ast.iter_child_nodes(x))
    return False


def counting(w):
    """the for-loop a counting while-loop is, or None"""
    if not w.body or w.orelse:
        return None
    sv = step_of(w.body[-1])
    if sv is None:
        return None
    v, k = sv
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(b, ast.Name) and b.id == v and not (isinstance(a, ast.Name) and a.id == v):
        a, b = b, a
        op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), ast.Eq)()
    if not (isinstance(a, ast.Name) and a.id == v) or v in names(b):
        return None
    if k > 0 and isinstance(op, ast.Lt) or k < 0 and isinstance(op, ast.Gt):
        hi = b
    elif k > 0 and isinstance(op, ast.LtE):
        hi = ast.BinOp(b, ast.Add(), ast.Constant(1))
    elif k < 0 and isinstance(op, ast.GtE):
        hi = ast.BinOp(b, ast.Sub(), ast.Constant(1))
    else:
        return None
    body = w.body[:-1]
    stored = set().union(*[names(x, (ast.Store, ast.Del)) for x in body]) if body else set()
    if v in stored or names(b) & stored or loops_own(body, ast.Continue):
        return None
    if any(isinstance(x, ast.Call) for x in ast.walk(b)) and not all(
            isinstance(x.func, ast.Name) and x.func.id == "len" or isinstance(x.func, ast.Attribute)
            for x in ast.walk(b) if isinstance(x, ast.Call)):
        return None
    rng = ast.Call(ast.Name("range", ast.Load()), [ast.Name(v, ast.Load()), hi] + (
        [] if k == 1 else [ast.Constant(k) if k > 0 else ast.UnaryOp(ast.USub(), ast.Constant(-k))]), [])
    end = [] if loops_own(body, ast.Break) or k not in (1, -1) else [ast.Assign([ast.Name(v, ast.Store())], hi)]
    f = ast.For(ast.Name(v, ast.Store()), rng, body or [ast.Pass()], end, None)
    return f


NEG = {ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Lt: ast.GtE}


def guarded(w):
    """`while True: if C: break; ...` -> `while not C: ...`"""
    if not (isinstance(w.test, ast.Constant) and w.test.value) or w.orelse or not w.body:
        return w
    f = w.body[0]
    if not (isinstance(f, ast.If) and len(f.body) == 1 and isinstance(f.body[0], ast.Break)):
        return w
    t = f.test
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    elif isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
        t = ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
    else:
        t = ast.UnaryOp(ast.Not(), t)
    return ast.copy_location(ast.While(ast.copy_location(t, w), f.orelse + w.body[1:] or [ast.Pass()], []), w)


class Counting(ast.NodeTransformer):
    def visit_While(self, n):
        self.generic_visit(n)
        n = guarded(n)
        f = counting(n)
        if f is None:
            return n
        for x in ast.walk(f):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ast.copy_location(f, n)
        ast.fix_missing_locations(f)
        return f


def desugar(tree):
    if any(isinstance(x, ast.While) for x in ast.walk(tree)):
        tree = Counting().visit(tree)
        ast.fix_missing_locations(tree)
    return tree
