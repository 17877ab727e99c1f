"""Name resolution over the syntax trees (no interpretation)."""
import ast


class ModInfo:
    """import tables and functions of one module"""

    def __init__(self, prog, mod):
        self.mod, self.tree = mod, prog.trees[mod]
        self.file = prog.relfile(mod)
        self.is_pkg = prog.files[mod].endswith("__init__.py")
        self.imports = {}        # name -> dotted (module level)
        self.funcs = []          # (qualified name, node)
        self.collect(self.tree.body, "")
        self.top_imports(self.tree)

    def top_imports(self, node):
        for n in walk_scope(node):
            self.add_import(n, self.imports)

    def add_import(self, n, tab):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    tab[a.asname] = a.name
                else:
                    tab[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = self.base(n)
            for a in n.names:
                if a.name != "*":
                    tab[a.asname or a.name] = base + "." + a.name if base else a.name

    def base(self, n):
        if not n.level:
            return n.module or ""
        parts = self.mod.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def collect(self, body, pre):
        for n in ast.iter_child_nodes(ast.Module(body, [])) if isinstance(body, list) else ast.iter_child_nodes(body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.append((pre + n.name, n))
                self.collect(n, pre + n.name + ".")
            elif isinstance(n, ast.ClassDef):
                self.collect(n, pre + n.name + ".")
            else:
                self.collect(n, pre)

    def local_imports(self, fn):
        tab = dict(self.imports)
        for n in walk_scope(fn):
            self.add_import(n, tab)
        return tab


def walk_scope(node):
    """nodes of one scope (function bodies and classes nested in it are left out)"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            # decorators and defaults belong to the enclosing scope
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            todo.extend(getattr(n, "decorator_list", []))
            continue
        todo.extend(ast.iter_child_nodes(n))


def dotted(e, tab, shadow=()):
    """dotted name an expression denotes through the import table"""
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name) or e.id in shadow:
        return None
    if e.id not in tab:
        return None
    return ".".join([tab[e.id]] + parts[::-1])


def stores(fn):
    """names bound in the function's own scope"""
    out = set()
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.add(x.arg)
    for n in walk_scope(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
    return out
