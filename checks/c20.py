"""C20: no computed result is silently thrown away (syntax tree of the whole package)."""
import ast
import os
import warnings

from . import base, lint

warnings.simplefilter("ignore")

# methods of xarray, pandas, numpy, pint and str objects that return a new object and leave the receiver alone
PURE = set("""
where isel sel isin assign assign_coords assign_attrs rename rename_vars rename_dims drop drop_vars drop_dims drop_sel
drop_isel drop_duplicates transpose astype fillna dropna ffill bfill interp interp_like interpolate_na interp_calendar
squeeze expand_dims stack unstack sortby reindex reindex_like align set_coords reset_coords set_index reset_index
swap_dims merge combine_first broadcast_like broadcast_equals to to_base_units to_root_units to_compact to_reduced_units
m_as copy mean sum max min std var median prod cumsum cumprod all any argmax argmin quantile rank diff shift roll rolling
coarsen groupby groupby_bins resample clip round conj argsort nonzero flatten ravel reshape repeat swapaxes
tolist to_numpy to_dict to_dataframe to_dataset to_array to_dataarray to_series to_pandas to_index convert_calendar
isnull notnull isna notna map pipe reduce head tail thin pad polyfit differentiate integrate
compute persist chunk as_numpy broadcast searchsorted
strip lstrip rstrip lower upper replace split join format title capitalize encode decode startswith endswith zfill
""".split())
# numpy / xarray functions called for their effect
EFFECT = set("""
place put copyto put_along_axis fill_diagonal putmask seterr seterrcall setbufsize set_printoptions set_string_function
seed shuffle set_state save savez savez_compressed savetxt set_options save_mfdataset register_dataset_accessor
register_dataarray_accessor at tofile errstate
""".split())
COPIES = {"where", "fillna", "astype", "copy", "assign", "assign_coords", "assign_attrs", "flatten", "nan_to_num",
          "dropna", "interp", "clip", "round", "drop_vars", "expand_dims"}
# operations that state a correction, selection or conversion of the data they are given
CORRECT = set("""
where isel sel assign assign_coords assign_attrs rename rename_vars rename_dims drop drop_vars drop_dims drop_sel
drop_isel transpose astype fillna dropna ffill bfill interp interp_like interpolate_na squeeze expand_dims sortby reindex
reindex_like set_coords reset_coords swap_dims to to_base_units clip nan_to_num flip moveaxis swapaxes maximum minimum
sort fmax fmin masked_where masked_invalid stack unstack resample roll
""".split())
MODS = {"np": "numpy", "numpy": "numpy", "xr": "xarray", "xarray": "xarray", "pd": "pandas"}


def dotted(n):
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        out.append(n.id)
        return ".".join(reversed(out))
    return None


def pure_call(n, aliases, pure_funcs=()):
    """name of the side-effect free library operation, else None"""
    if not isinstance(n, ast.Call):
        return None
    kw = {k.arg for k in n.keywords}
    if "out" in kw or "inplace" in kw:
        return None
    d = dotted(n.func)
    if d is not None:
        head = d.split(".")[0]
        if head in aliases:
            last = d.split(".")[-1]
            if last in EFFECT or head in ("plt", "mpl", "matplotlib"):
                return None
            if aliases[head] in ("numpy", "xarray"):
                # functions with an output argument by position
                return "%s.%s" % (aliases[head], ".".join(d.split(".")[1:]))
            return None
        if "." not in d and d in pure_funcs:
            return d
    if isinstance(n.func, ast.Attribute) and n.func.attr in PURE:
        if n.func.attr in ("map", "pipe", "reduce") and not isinstance(n.func.value, (ast.Name, ast.Attribute,
                                                                                    ast.Subscript, ast.Call)):
            return None
        return "." + n.func.attr
    return None


def imports(tree):
    al = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                top = a.name.split(".")[0]
                al[(a.asname or a.name).split(".")[0]] = top
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                al.setdefault(a.asname or a.name, "from:" + (n.module or ""))
    return al


def classes_and_functions(tree):
    out = []

    def rec(n, qual):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((qual + c.name, c))
                rec(c, qual + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                rec(c, qual + c.name + ".")
            else:
                rec(c, qual)
    rec(tree, "")
    return out


def is_pure_function(fn, aliases):
    """a function of plain names: stores nothing into objects, calls only pure library operations, returns a value"""
    rets = [n for n in ast.walk(fn) if isinstance(n, ast.Return) and n.value is not None]
    if not rets:
        return False
    for n in ast.walk(fn):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return False
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.Raise, ast.Import,
                          ast.ImportFrom, ast.With)):
            return False
        if isinstance(n, ast.AugAssign):
            return False
        if isinstance(n, ast.Call) and pure_call(n, aliases) is None:
            d = dotted(n.func)
            if d not in ("len", "range", "float", "int", "str", "abs", "min", "max", "sum", "round", "zip", "list",
                         "tuple", "isinstance", "enumerate"):
                return False
    return True


# ---------------------------------------------------------------- liveness
class Live:
    """backward liveness of local names over the statements of one function"""

    def __init__(self, fn):
        self.dead = []
        self.skip = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.skip |= set(n.names)
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                self.skip |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "exec",
                                                                                        "eval", "globals"):
                self.skip = None
                return
        self.exc = set()
        self.loops = []
        self.final = False
        self.block(fn.body, set())
        self.dead = []
        self.final = True
        self.exc = set()
        self.loops = []
        self.block(fn.body, set())

    def uses(self, n):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}

    def block(self, body, live):
        for s in reversed(body):
            live = self.stmt(s, live)
        return live

    def stmt(self, s, live):
        live = live | self.exc
        if isinstance(s, ast.Assign) or isinstance(s, ast.AnnAssign) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            names = [t for t in ts if isinstance(t, ast.Name)]
            if self.final and len(names) == len(ts) and all(t.id not in live and t.id not in self.skip for t in names):
                self.dead.append((s, names[0].id))
            kill = {t.id for t in names}
            for t in ts:
                if isinstance(t, (ast.Tuple, ast.List)):
                    kill |= {e.id for e in t.elts if isinstance(e, ast.Name)}
            live = live - kill
            for t in ts:
                live |= self.uses(t)
            return live | self.uses(s.value)
        if isinstance(s, ast.AugAssign):
            return live | self.uses(s.value) | self.uses(s.target) | (
                {s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, (ast.Return, ast.Raise)):
            return (self.exc | self.uses(s))
        if isinstance(s, ast.If):
            return self.block(s.body, live) | self.block(s.orelse, live) | self.uses(s.test)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            after = self.block(s.orelse, live)
            head = set(after)
            keep = self.final
            for k in range(20):
                self.final = False
                nxt = self.loop(s, head, live, after)
                if nxt <= head:
                    break
                head |= nxt
            self.final = keep
            head |= self.loop(s, head, live, after)
            if isinstance(s, (ast.For, ast.AsyncFor)):
                return head | self.uses(s.iter)
            return head
        if isinstance(s, (ast.With, ast.AsyncWith)):
            r = self.block(s.body, live)
            for i in s.items:
                r |= self.uses(i.context_expr)
            return r
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live)
            h = set(fin)
            for x in s.handlers:
                h |= self.block(x.body, fin)
            old = self.exc
            self.exc = old | h
            b = self.block(s.body, self.block(s.orelse, fin))
            self.exc = old
            return b | h
        if isinstance(s, ast.Break):
            return set(self.loops[-1][1]) if self.loops else live
        if isinstance(s, ast.Continue):
            return set(self.loops[-1][0]) if self.loops else live
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return live | self.uses(s)
        if isinstance(s, ast.Delete):
            return live | self.uses(s)
        if isinstance(s, getattr(ast, "Match", ())):
            r = set(live) | self.uses(s.subject)
            for c in s.cases:
                r |= self.block(c.body, live) | (self.uses(c.guard) if c.guard else set())
            return r
        return live | self.uses(s)

    def loop(self, s, head, brk, after):
        self.loops.append((head, brk))
        if isinstance(s, ast.While):
            r = self.block(s.body, head | self.uses(s.test)) | self.uses(s.test) | after
        else:
            r = self.block(s.body, head) - {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            r |= after | self.uses(s.target)
        self.loops.pop()
        return r


def base_call(t):
    """the call at the bottom of a store target's base chain"""
    n = t.value
    while True:
        if isinstance(n, ast.Call):
            return n
        if isinstance(n, ast.Attribute) and n.attr in ("values", "data", "attrs", "encoding", "magnitude"):
            n = n.value
        elif isinstance(n, ast.Subscript):
            n = n.value
        else:
            return None


def fancy(n):
    """an index expression that selects by mask or list, i.e. copies"""
    if isinstance(n, (ast.Compare, ast.List, ast.ListComp)):
        return True
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
        return fancy(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        return fancy(n.left) or fancy(n.right)
    if isinstance(n, ast.Call):
        d = dotted(n.func) or ""
        return d.split(".")[-1] in ("where", "isnan", "isfinite", "isin", "logical_and", "logical_or", "logical_not",
                                    "nonzero", "argwhere") and d.split(".")[0] in ("np", "numpy")
    return False


def fn(s, path, o):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    al = imports(tree)
    rel = os.path.relpath(path, base.REPO)
    owner = {}
    funcs = classes_and_functions(tree)
    for q, f in funcs:
        for n in ast.walk(f):
            owner[n] = q
    pf = {f.name for q, f in funcs if "." not in q and is_pure_function(f, al)}

    def find(kind, n, what):
        q = owner.get(n, "<module>")
        o.find("%s:%s:%s" % (kind, q, what), "%s: %s" % (kind, ast.unparse(n).splitlines()[0][:100]),
               (rel, n.lineno, q))
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr):
            o.n("obligations")
            o.n("expression_statements")
            v = n.value
            p = pure_call(v, al, pf)
            if p is not None:
                find("discarded", n, p)
            elif isinstance(v, ast.Compare) and isinstance(v.left, (ast.Name, ast.Attribute, ast.Subscript)) and \
                    isinstance(v.ops[0], ast.Eq) and not all(isinstance(x, ast.Name) for x in (v.left, v.comparators[0])):
                find("comparison-statement", n, "==")
            elif isinstance(v, ast.BinOp) and any(isinstance(x, (ast.Attribute, ast.Subscript, ast.Call))
                                                  for x in ast.walk(v)):
                find("discarded", n, type(v.op).__name__)
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if not isinstance(t, (ast.Subscript, ast.Attribute)):
                    continue
                o.n("obligations")
                o.n("stores")
                c = base_call(t)
                if c is not None:
                    p = pure_call(c, al, ())
                    if p is not None and p.split(".")[-1] in COPIES:
                        find("store-into-copy", n, p)
                if isinstance(t, ast.Subscript):
                    b = t.value
                    while isinstance(b, ast.Attribute) and b.attr in ("values", "data"):
                        b = b.value
                    if isinstance(b, ast.Subscript):
                        k = b.slice
                        ks = k.elts if isinstance(k, ast.Tuple) else [k]
                        if any(fancy(x) for x in ks):
                            find("store-into-copy", n, "masked selection")
    for q, f in funcs:
        l = Live(f)
        if l.skip is None:
            o.unk("%s %s: reads locals()" % (rel, q))
            continue
        o.n("functions_live_analysed")
        for st, name in l.dead:
            o.n("obligations")
            if name.startswith("_"):
                continue
            p = pure_call(st.value, al, pf)
            if p is None or p.split(".")[-1] not in CORRECT:
                continue
            ev = [x for x in ast.walk(st.value) if isinstance(x, ast.Name)]
            if not ev:
                continue
            find("never-read", st, "%s=%s" % (name, p))
    o.funcs |= {"%s:%s" % (rel, q) for q, _ in funcs}


def main(tier):
    return base.main(
        "C20", list(lint.files(base.REPO)), fn, tier=tier, need_sim=False,
        explanation=("Effect and liveness rules over the syntax tree of every module: (1) an expression statement may "
                     "not be a call of a library operation (xarray, numpy, pint, str) or package function without "
                     "side effects, nor an equality test or arithmetic; (2) a store may not target a fresh copy "
                     "(where/fillna/astype/assign..., or a selection by mask or list); (3) the result of a "
                     "correcting, selecting or converting operation held in a local name must be read on some path (backward liveness)."),
        assumptions=["method names are those of the array libraries (no package class redefines one with an effect)"])
