"""Scope analysis: names that no enclosing scope, module or builtin defines (whole package, syntax tree)."""
import ast
import builtins
import os
import symtable
import warnings

PKG = "emc2"


def files(root):
    for d, ds, fs in os.walk(os.path.join(root, PKG)):
        ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__"))
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.join(d, f)


def undefined_names(path):
    """(line, name, function) of loads of globals that are never defined in the module"""
    src = open(path, encoding="utf-8").read()
    warnings.simplefilter("ignore")
    tree = ast.parse(src, path)
    table = symtable.symtable(src, path, "exec")
    defined = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__"}
    for s in table.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            defined.add(s.get_name())
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            defined.update(n.names)
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
            return [], 0
        if isinstance(n, ast.ExceptHandler) and n.name:
            defined.add(n.name)
    # names used as globals, per function
    missing = {}

    def walk(tb):
        for s in tb.get_symbols():
            if s.is_referenced() and s.is_global() and s.get_name() not in defined:
                missing.setdefault(s.get_name(), []).append(tb)
        for c in tb.get_children():
            walk(c)
    walk(table)
    out = []
    if missing:
        def rec(n, fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = n.name
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in missing:
                out.append((n.lineno, n.id, fn))
            for c in ast.iter_child_nodes(n):
                rec(c, fn)
        rec(tree, "<module>")
    return out, len(list(ast.walk(tree)))
