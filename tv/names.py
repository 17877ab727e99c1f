"""Name binding over the syntax trees: bound names, module members, attributes, call signatures."""
import ast
import builtins
import json
import os
from . import static
from .interp import Site

STUBS = None
# accepted in more places than the documentation says
ALWAYS = {"unbiased", "names", "memory_format", "dtype", "device", "out", "generator", "axis", "keepdims", "x", "p", "copy", "non_blocking", "requires_grad", "layout", "pin_memory", "a_min", "a_max"}
OTHER_METHODS = set(dir(str)) | set(dir(list)) | set(dir(dict)) | set(dir(bytes)) | {"backward", "register_hook", "map_", "apply_", "format", "split", "load", "save", "round", "resize", "is_shared"}
EXTRA = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__builtins__", "__class__", "__qualname__", "__module__", "__annotations__", "__version__", "__all__", "WindowsError"}
MODULE_ATTRS = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__loader__", "__dict__", "__version__"}


def stubs():
    global STUBS
    if STUBS is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs.json")) as f:
            STUBS = json.load(f)
        STUBS["members"] = {k: set(v) for k, v in STUBS["members"].items()}
        STUBS["anyattr"] = set(STUBS["anyattr"])
        STUBS["attrs"] = {k: set(v) for k, v in STUBS["attrs"].items()}
    return STUBS


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.mods = {m: static.ModInfo(prog, m) for m in prog.trees if not m.startswith("tvdriver")}
        self.top = {m: self.toplevel(M) for m, M in self.mods.items()}
        self.bad = []
        self.count = {}
        self.classes = {}           # dotted -> (ModInfo, node)
        self.funcs = {}             # dotted -> (ModInfo, node)
        for m, M in self.mods.items():
            for n in M.tree.body:
                self.top_defs(m, M, n)
        self.imported = set()       # module paths the package imports
        for M in self.mods.values():
            for n in ast.walk(M.tree):
                for d in ([a.name for a in n.names] if isinstance(n, ast.Import) else [M.base(n)] if isinstance(n, ast.ImportFrom) else []):
                    p = d.split(".")
                    self.imported |= {".".join(p[:i]) for i in range(1, len(p) + 1)}
        self.anyname = self.all_names()
        self.own_names = {n.name for M in self.mods.values() for n in ast.walk(M.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}

    def top_defs(self, m, M, n):
        if isinstance(n, ast.ClassDef):
            self.classes.setdefault(m + "." + n.name, []).append((M, n))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.funcs.setdefault(m + "." + n.name, []).append((M, n))
        elif isinstance(n, (ast.If, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                for x in getattr(n, f, []):
                    self.top_defs(m, M, x)
            for h in getattr(n, "handlers", []):
                for x in h.body:
                    self.top_defs(m, M, x)

    def toplevel(self, M):
        """names a module defines (None: cannot tell)"""
        out = set(static.stores(M.tree)) | set(M.imports)
        for n in ast.walk(M.tree):
            if isinstance(n, ast.Global):
                out |= set(n.names)
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec", "eval", "vars"):
                return None
            if isinstance(n, ast.FunctionDef) and n.name == "__getattr__" and n in M.tree.body:
                return None
        return out

    def all_names(self):
        """every identifier that can be an attribute of something in the package"""
        out = set(stubs()["anyattr"])
        for k in ("members", "attrs"):
            for v in stubs()[k].values():
                out |= v
        for M in self.mods.values():
            for n in ast.walk(M.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(n.name)
                    if isinstance(n, ast.ClassDef):
                        out |= static.stores(n)
                elif isinstance(n, ast.keyword) and n.arg:
                    out.add(n.arg)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 200:
                    for w in n.value.replace(",", " ").split():
                        w = w.lstrip("-").replace("-", "_")
                        if w.isidentifier():
                            out.add(w)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        out |= set((a.asname or a.name).split("."))
            out |= self.top[M.mod] or set()
        return out

    # ------------------------------------------------------------------
    def report(self, rule, M, q, node, msg):
        try:
            t = ast.unparse(node)[:100]
        except Exception:
            t = "?"
        self.bad.append((rule, Site(M.file, node.lineno, q, t), msg))

    def tick(self, rule):
        self.count[rule] = self.count.get(rule, 0) + 1

    def run(self, executed):
        for m in sorted(self.mods):
            M = self.mods[m]
            self.imports(M)
            for q, fn in [("<module>", M.tree)] + M.funcs:
                self.scope(M, q, fn, executed)
        self.attributes()
        return self.bad

    # ------------------------------------------------------------------
    def imports(self, M):
        for n in ast.walk(M.tree):
            if protected(M.tree, n, ("ImportError", "ModuleNotFoundError", "Exception", "AttributeError")) or isinstance(n, (ast.Import, ast.ImportFrom)) and has_guard(M.tree, n, ""):
                continue
            if isinstance(n, ast.ImportFrom):
                base = M.base(n)
                for a in n.names:
                    if a.name == "*":
                        continue
                    self.tick("imported-names")
                    e = self.missing(base, a.name)
                    if e:
                        self.report("import", M, "<module>", n, "cannot import name %r from %r" % (a.name, base))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.tick("imported-names")
                    if a.name.split(".")[0] == self.prog.pkg and a.name not in self.mods:
                        self.report("import", M, "<module>", n, "no module named %r" % a.name)

    def missing(self, base, name):
        """is `name` certainly no member of module `base`"""
        if base in self.mods:
            t = self.top[base]
            if t is None or name in t or name in MODULE_ATTRS or (base + "." + name) in self.mods:
                return False
            return True
        if base.split(".")[0] == self.prog.pkg:
            d = base.rsplit(".", 1)
            return len(d) == 2 and d[0] in self.mods and d[1] not in (self.top[d[0]] or {d[1]})
        if base + "." + name in self.imported:
            return False
        mem = stubs()["members"].get(base)
        if mem is None or name in mem or name in MODULE_ATTRS:
            return False
        return (base + "." + name) not in stubs()["members"] and "__getattr__" not in mem

    # ------------------------------------------------------------------
    def scope(self, M, q, fn, executed):
        tab = M.local_imports(fn) if q != "<module>" else M.imports
        top = self.top[M.mod]
        local = static.stores(fn) if q != "<module>" else set()
        enclosing = set()
        glob = set()
        parts = q.split(".")
        for i in range(1, len(parts)):
            for k, e in M.funcs:
                if k == ".".join(parts[:i]):
                    enclosing |= static.stores(e)
        comps = comp_names(fn)
        for n in static.walk_scope(fn):
            if isinstance(n, (ast.Global,)):
                glob |= set(n.names)
        local -= glob
        shadow = local - set(tab)
        body = ast.Module(fn.body, [])
        for n in static.walk_scope(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.tick("names")
                if n.id in local or n.id in enclosing or n.id in comps or top is None or n.id in top or hasattr(builtins, n.id) or n.id in EXTRA:
                    continue
                if protected(fn, n, ("NameError", "Exception")) or in_annotation(fn, n):
                    continue
                self.report("undefined-name", M, q, n, "name %r is not defined" % n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.external(M, q, fn, n, tab, shadow)
            elif isinstance(n, ast.Call):
                self.signature(M, q, fn, n, tab, shadow)
        for lam in [x for x in static.walk_scope(fn) if isinstance(x, (ast.Lambda, ast.ClassDef))]:
            if isinstance(lam, ast.ClassDef):
                continue
            a = lam.args
            la = {x.arg for y in ast.walk(lam) if isinstance(y, ast.arguments) for x in y.posonlyargs + y.args + y.kwonlyargs + [y.vararg, y.kwarg] if x is not None}
            for n in ast.walk(lam.body):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.tick("names")
                    if n.id in la or n.id in local or n.id in enclosing or n.id in comps or top is None or n.id in top or hasattr(builtins, n.id) or n.id in EXTRA or n.id in comp_names(lam):
                        continue
                    self.report("undefined-name", M, q, n, "name %r is not defined" % n.id)
        if q != "<module>":
            self.unbound(M, q, fn, local, executed)

    # ------------------------------------------------------------------
    def external(self, M, q, fn, n, tab, shadow):
        """attribute chain starting at an imported module"""
        d = static.dotted(n, tab, shadow)
        if d is None:
            return
        parts = d.split(".")
        self.tick("module-members")
        for i in range(1, len(parts)):
            base = ".".join(parts[:i])
            known = base in self.mods or base in stubs()["members"]
            if not known:
                # a member that is a class or function: its own attributes are not looked into
                return
            if self.missing(base, parts[i]):
                if not protected(fn, n, ("AttributeError", "Exception")) and not has_guard(fn, n, parts[i]):
                    self.report("module-member", M, q, n, "module %r has no attribute %r" % (base, parts[i]))
                return
            # resolve a member of the package that is itself imported from elsewhere
            if base in self.mods and base + "." + parts[i] not in self.mods:
                return

    # ------------------------------------------------------------------
    def resolve(self, d, depth=0):
        """dotted name -> list of (ModInfo, node) of the class or function, following re-exports"""
        if depth > 6:
            return None
        for t in (self.classes, self.funcs):
            if d in t:
                return t[d] if len(t[d]) == 1 else None
        base, _, name = d.rpartition(".")
        if base in self.mods:
            M = self.mods[base]
            if name in M.imports and name not in static.stores(ast.Module([s for s in M.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom))], [])):
                return self.resolve(M.imports[name], depth + 1)
        return None

    def signature(self, M, q, fn, call, tab, shadow):
        f = call.func
        target = None
        skip = 0
        if isinstance(f, ast.Name) and f.id not in shadow:
            d = tab.get(f.id) or M.mod + "." + f.id
            target = self.resolve(d)
            ext = d
        elif isinstance(f, ast.Attribute):
            d = static.dotted(f, tab, shadow)
            if d is None and isinstance(f.value, ast.Name) and f.value.id == "self":
                return self.method_call(M, q, call)
            if d is None:
                if f.attr in stubs()["tensor_kws"] and f.attr not in self.own_names and not (isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
                    np_ = {p[0] for k, v in stubs()["sigs"].items() if k.rsplit(".", 1)[1] == f.attr for p in v}
                    if f.attr not in OTHER_METHODS:
                        nk = {"order", "mode", "k", "timeout", "ddof"} if any(x.split(".")[0] != "torch" for x in M.imports.values()) else set()
                        self.keywords(M, q, fn, call, "." + f.attr, set(stubs()["tensor_kws"][f.attr]) | np_ | nk)
                return
            target = self.resolve(d)
            ext = d
        else:
            return
        if target:
            T, node = target[0]
            if isinstance(node, ast.ClassDef):
                node = self.ctor(T, node)
                if node is None:
                    return
                skip = 1
            if any(not isinstance(x, ast.Name) or x.id not in ("staticmethod",) for x in node.decorator_list) and node.decorator_list:
                if not all(static.dotted(x.func if isinstance(x, ast.Call) else x, T.imports) in ("torch.no_grad", "torch.inference_mode", "torch.jit.script", "functools.lru_cache", "functools.cache", "contextlib.contextmanager") for x in node.decorator_list):
                    return
            a = node.args
            params = [[x.arg, "pk"] for x in a.posonlyargs + a.args][skip:]
            nd = len(a.defaults)
            req = [x.arg for x in (a.posonlyargs + a.args)[skip:len(a.posonlyargs + a.args) - nd]]
            kwo = [x.arg for x in a.kwonlyargs]
            kreq = [x.arg for x, dd in zip(a.kwonlyargs, a.kw_defaults) if dd is None]
            self.match(M, q, fn, call, ast.unparse(f), [p[0] for p in params], req, kwo, kreq, a.vararg is not None, a.kwarg is not None)
        else:
            s = stubs()["sigs"].get(canon(ext))
            if s is None:
                self.keywords(M, q, fn, call, ast.unparse(f), stubs()["kws"].get(canon(ext)))
                return
            pos = [p[0] for p in s if p[1] in ("po", "pk")]
            req = [p[0] for p in s if p[1] in ("po", "pk") and not p[2]]
            kwo = [p[0] for p in s if p[1] == "ko"]
            kreq = [p[0] for p in s if p[1] == "ko" and not p[2]]
            self.match(M, q, fn, call, ast.unparse(f), pos, req, kwo, kreq, any(p[1] == "va" for p in s), any(p[1] == "vk" for p in s))

    def keywords(self, M, q, fn, call, name, known):
        """keyword names of a routine whose documented parameter names are known"""
        if known is None:
            return
        self.tick("call-signatures")
        for k in call.keywords:
            if k.arg is not None and k.arg not in known and k.arg not in ALWAYS and not protected(fn, call, ("TypeError", "Exception")):
                self.report("signature", M, q, call, "%s() has no argument %r" % (name, k.arg))
                return

    def match(self, M, q, fn, call, name, pos, req, kwo, kreq, va, vk):
        self.tick("call-signatures")
        if any(isinstance(x, ast.Starred) for x in call.args):
            starred = True
        else:
            starred = False
        dstar = any(k.arg is None for k in call.keywords)
        if protected(fn, call, ("TypeError", "Exception")):
            return
        n = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if n > len(pos) and not va:
            self.report("signature", M, q, call, "%s() takes %d positional arguments but %d are given" % (name, len(pos), n))
            return
        given = set() if starred else set(pos[:n])
        for k in call.keywords:
            if k.arg is None:
                continue
            if k.arg not in pos and k.arg not in kwo and not vk:
                self.report("signature", M, q, call, "%s() has no argument %r" % (name, k.arg))
                return
            if k.arg in given:
                self.report("signature", M, q, call, "%s() gets %r twice" % (name, k.arg))
                return
        if starred or dstar:
            return
        given |= {k.arg for k in call.keywords}
        miss = [r for r in req + kreq if r not in given]
        if miss:
            self.report("signature", M, q, call, "%s() is called without %r" % (name, miss[0]))

    # ------------------------------------------------------------------ classes
    def mro(self, M, c, seen=None):
        """-> (classes of the package, other base names)"""
        seen = seen if seen is not None else []
        ext = []
        if any(c is x[1] for x in seen):
            return seen, ext
        seen.append((M, c))
        for b in c.bases:
            d = static.dotted(b, M.imports) or (M.mod + "." + b.id if isinstance(b, ast.Name) else None)
            r = self.resolve(d) if d else None
            if r and isinstance(r[0][1], ast.ClassDef):
                _, e = self.mro(r[0][0], r[0][1], seen)
                ext += e
            else:
                ext.append(d or "?")
        return seen, ext

    def subclasses(self, c):
        out = []
        for l in self.classes.values():
            for M, k in l:
                if k is not c and any(k2 is c for _, k2 in self.mro(M, k)[0]):
                    out.append((M, k))
        return out

    def ctor(self, M, c):
        cl, ext = self.mro(M, c)
        if c.keywords or c.decorator_list:
            return None
        for T, k in cl:
            if any(isinstance(x, ast.FunctionDef) and x.name in ("__new__", "__call__") and False for x in k.body):
                return None
            for x in k.body:
                if isinstance(x, ast.FunctionDef) and x.name == "__new__":
                    return None
            for x in k.body:
                if isinstance(x, ast.FunctionDef) and x.name == "__init__":
                    return x
        return None

    def class_of(self, M, q):
        parts = q.split(".")
        for l in self.classes.values():
            for T, k in l:
                if T is M and parts[0] == k.name and len(parts) == 2:
                    return k
        return None

    def method_call(self, M, q, call):
        c = self.class_of(M, q)
        if c is None:
            return
        name = call.func.attr
        cl, ext = self.mro(M, c)
        fam = cl + self.subclasses(c)
        defs = [x for _, k in fam for x in k.body if isinstance(x, ast.FunctionDef) and x.name == name]
        if len(defs) != 1 or any(self.assigned_attr(k, name) for _, k in fam):
            return
        d = defs[0]
        skip = 1
        for x in d.decorator_list:
            t = ast.unparse(x)
            if t == "staticmethod":
                skip = 0
            elif t not in ("classmethod", "abstractmethod", "abc.abstractmethod", "torch.no_grad()"):
                return
        a = d.args
        allp = a.posonlyargs + a.args
        pos = [x.arg for x in allp][skip:]
        req = [x.arg for x in allp[skip:len(allp) - len(a.defaults)]]
        fn = dict(M.funcs).get(q)
        self.match(M, q, fn, call, "self." + name, pos, req, [x.arg for x in a.kwonlyargs], [x.arg for x, dd in zip(a.kwonlyargs, a.kw_defaults) if dd is None],
                   a.vararg is not None, a.kwarg is not None)

    def assigned_attr(self, c, name):
        return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(c))

    def attributes(self):
        for l in self.classes.values():
            for M, c in l:
                cl, ext = self.mro(M, c)
                subs = self.subclasses(c)
                fam = cl + subs + [x for S_, k in subs for x in self.mro(S_, k)[0]]
                exts = set(ext)
                for S_, k in subs:
                    exts |= set(self.mro(S_, k)[1])
                names = set()
                open_ = False
                for b in exts:
                    if b in ("torch.nn.Module", "torch.nn.modules.Module"):
                        names |= stubs()["attrs"]["torch.nn.Module"]
                    elif b in ("object", "abc.ABC", "enum.Enum") or b.endswith(".object"):
                        names |= set(dir(object)) | {"name", "value"}
                    else:
                        open_ = True
                for T, k in fam:
                    names |= static.stores(k)
                    for n in ast.walk(k):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                            names.add(n.attr)
                        if isinstance(n, ast.Call):
                            fa = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                            if fa in ("register_buffer", "register_parameter", "add_module", "register_module", "__setattr__", "setattr", "__setitem__"):
                                s = [x for x in n.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                                if s:
                                    names.add(s[0].value)
                                else:
                                    open_ = True
                            if fa in ("update",) and "__dict__" in ast.unparse(n.func):
                                open_ = True
                        if isinstance(n, ast.FunctionDef) and n.name in ("__getattr__", "__getattribute__"):
                            open_ = True
                    if k.decorator_list or k.keywords:
                        open_ = open_ or bool(k.keywords) or any("dataclass" not in ast.unparse(d) for d in k.decorator_list)
                names |= set(dir(object)) | {"__dict__", "__class__", "__name__"}
                known = {id(k) for S_, k in subs}
                for T in self.mods.values():
                    for k in ast.walk(T.tree):
                        if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "setattr" and k.args and isinstance(k.args[0], ast.Name) and k.args[0].id == c.name:
                            open_ = True
                        if isinstance(k, ast.ClassDef) and k is not c and id(k) not in known and any((b.id if isinstance(b, ast.Name) else getattr(b, "attr", "")) == c.name for b in k.bases):
                            open_ = True
                if open_ or not exts - {"object"} and any(len(k.bases) > 1 for S_, k in subs):
                    continue    # also a class that others mix in
                for f in c.body:
                    if not isinstance(f, ast.FunctionDef) or not f.args.args:
                        continue
                    if any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorator_list):
                        continue
                    me = f.args.args[0].arg
                    if me != "self":
                        continue
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                            self.tick("own-attributes")
                            if n.attr not in names and not protected(f, n, ("AttributeError", "Exception")) and not has_guard(f, n, n.attr):
                                self.report("own-attribute", M, c.name + "." + f.name, n, "%s objects have no attribute %r" % (c.name, n.attr))
        for M in self.mods.values():
            for q, fn in [("<module>", M.tree)] + M.funcs:
                for n in static.walk_scope(fn):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        self.tick("attribute-names")
                        if n.attr not in self.anyname and static.dotted(n, M.imports) is None and not protected(fn, n, ("AttributeError", "Exception")):
                            self.report("unknown-attribute", M, q, n, "nothing has an attribute %r" % n.attr)

    # ------------------------------------------------------------------ definite assignment
    def unbound(self, M, q, fn, local, executed):
        par = set()
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            par.add(x.arg)
        A = Assign(self, M, q, fn, local - par - nonlocals(fn), executed)
        A.block(fn.body, [(frozenset(), frozenset())])


def nonlocals(fn):
    out = set()
    for n in static.walk_scope(fn):
        if isinstance(n, ast.Nonlocal):
            out |= set(n.names)
    return out


LIMIT = 256


class Assign:
    """path-wise assigned names: a state is (assigned, decided conditions); loops are entered, try blocks run to their end"""

    def __init__(self, owner, M, q, fn, local, executed):
        self.o, self.M, self.q, self.fn, self.local, self.executed = owner, M, q, fn, local, executed
        self.reported = set()
        self.cond = 0
        self.carried = []

    def use(self, node, states, st):
        comps = set()
        for n in walk_expr(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local and not getattr(n, "_comp", False):
                self.o.tick("local-uses")
                miss = [s for s in states if n.id not in s[0]]
                if miss and any(n.id in m and (self.cond > k or any(isinstance(x, (ast.BoolOp, ast.IfExp)) for x in ast.walk(node))) for m, k in self.carried):
                    continue    # a branch inside a loop: an earlier round may have assigned it
                if miss and (n.id, n.lineno) not in self.reported:
                    if len(miss) == len(states) and states:
                        why = "local variable %r is used before it is assigned" % n.id
                    elif (self.M.file, st.lineno) not in self.executed and not any(not miss_[1] or chain(miss_) for miss_ in miss):
                        why = "local variable %r is not assigned when %s" % (n.id, " and ".join(sorted("%s%s" % ("" if v else "not ", c) for c, v in miss[0][1]))[:160])
                    else:
                        continue
                    if protected(self.fn, n, ("NameError", "UnboundLocalError", "Exception")):
                        continue
                    self.reported.add((n.id, n.lineno))
                    self.o.report("unbound-local", self.M, self.q, n, why)

    def bind(self, names, states):
        names = frozenset(names)
        out = []
        for a, c in states:
            c2 = frozenset((t, v) for t, v in c if not (names & idents(t)))
            out.append((a | names, c2))
        return self.dedup(out)

    def dedup(self, states):
        s = list(dict.fromkeys(states))
        if len(s) > LIMIT:
            # join: keep the facts common to all
            a = frozenset.intersection(*[x[0] for x in s])
            b = frozenset.union(*[x[0] for x in s])
            return [(b, frozenset())] if a == b else [(b, frozenset())]
        return s

    def block(self, body, states):
        for st in body:
            if not states:
                return states
            states = self.stmt(st, states)
        return states

    def targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,))}

    def stmt(self, st, states):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.bind({st.name}, states)
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return self.bind({a.asname or a.name.split(".")[0] for a in st.names}, states)
        if isinstance(st, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(st):
                self.use(e, states, st)
            return []
        if isinstance(st, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].extend(states)
            return []
        if isinstance(st, ast.If):
            self.use(st.test, states, st)
            w = walrus(st.test)
            if w:
                states = self.bind(w, states)
            c = ast.unparse(st.test)
            neg = None
            if isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not):
                c, neg = ast.unparse(st.test.operand), True
            elif isinstance(st.test, ast.Compare) and len(st.test.ops) == 1:
                flip = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}.get(type(st.test.ops[0]))
                if flip:
                    c = ast.unparse(ast.Compare(st.test.left, [flip()], st.test.comparators))
                    neg = True
            pure = not any(isinstance(n, ast.Call) for n in ast.walk(st.test)) or True
            yes, no = [], []
            tv, fv = (False, True) if neg else (True, False)
            for a, d in states:
                if (c, fv) not in d and const(st.test) is not False:
                    yes.append((a, d | {(c, tv)}))
                if (c, tv) not in d and const(st.test) is not True:
                    no.append((a, d | {(c, fv)}))
            self.cond += 1
            r = self.dedup(self.block(st.body, yes) + self.block(st.orelse, no))
            self.cond -= 1
            return r
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                self.use(st.test, states, st)
                if walrus(st.test):
                    states = self.bind(walrus(st.test), states)
            else:
                self.use(st.iter, states, st)
            entry = states
            if not isinstance(st, ast.While):
                states = self.bind(self.targets(st.target), states)
            # conditions decided before the loop may change inside it
            changed = frozenset(n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
            self.loops.append([])
            inner = [(a, frozenset((t, v) for t, v in d if not (changed & idents(t)))) for a, d in states]
            self.carried.append((static.stores(ast.Module(st.body, [])), self.cond))
            out = self.block(st.body, inner)
            out = self.dedup(out + self.loops.pop())
            self.carried.pop()
            # names assigned anywhere in the body count as assigned afterwards (the loop is assumed to run)
            made = set()
            for s in out:
                made |= s[0]
            res = []
            for a, d in (out or entry):
                res.append((a | (frozenset(made) if out else frozenset()), frozenset((t, v) for t, v in d if not (changed & idents(t)))))
            if not out and const(getattr(st, "test", None)) is True:
                pass
            return self.dedup(self.block(st.orelse, res) if st.orelse else res)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr, states, st)
                if i.optional_vars is not None:
                    states = self.bind(self.targets(i.optional_vars), states)
            return self.block(st.body, states)
        if isinstance(st, ast.Try):
            body = self.block(st.body, states)
            made = {n for s in body for n in s[0]} | static.stores(ast.Module(st.body, []))
            after = self.block(st.orelse, body)
            for h in st.handlers:
                hs = self.bind({h.name} if h.name else (), states)
                # what the body may have assigned before failing is given the benefit of the doubt
                hs = [(a | frozenset(made), frozenset()) for a, d in hs]
                after = after + self.block(h.body, hs)
            if not st.handlers and not after:
                after = []
            fin = self.block(st.finalbody, after or [(frozenset(made) | frozenset(n for s in states for n in s[0]), frozenset())])
            return self.dedup(fin if after else [])
        if isinstance(st, ast.Match):
            self.use(st.subject, states, st)
            out = list(states)
            for c in st.cases:
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    out = out[len(states):]
                out += self.block(c.body, self.bind({n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}, states))
            return self.dedup(out)
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), states, st)
                    states = self.dedup([(a - {t.id}, d) for a, d in states])
            return states
        # simple statements
        if isinstance(st, ast.Assign):
            self.use(st.value, states, st)
            for t in st.targets:
                self.use(t, states, st)
            return self.bind(set().union(*[self.targets(t) for t in st.targets]) | walrus(st.value), states)
        if isinstance(st, ast.AugAssign):
            self.use(st.value, states, st)
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), states, st)
            else:
                self.use(st.target, states, st)
            return self.bind(self.targets(st.target), states)
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.use(st.value, states, st)
                return self.bind(self.targets(st.target), states)
            return states
        if isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            return states
        w = set()
        for e in ast.iter_child_nodes(st):
            self.use(e, states, st)
            w |= walrus(e)
        if isinstance(st, ast.Assert) and const(st.test) is False:
            return []
        return self.bind(w, states) if w else states

    loops = None

    def __getattribute__(self, n):
        if n == "loops":
            d = object.__getattribute__(self, "__dict__")
            return d.setdefault("_loops", [])
        return object.__getattribute__(self, n)


def chain(state):
    """the path denies equality, membership or type tests: they may enumerate all the cases"""
    for t, v in state[1]:
        if not v and any(isinstance(n, ast.Call) or isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Eq, ast.In)) for n in ast.walk(ast.parse(t, mode="eval"))):
            return True
    return False


_idents = {}


def idents(text):
    r = _idents.get(text)
    if r is None:
        try:
            r = frozenset(n.id for n in ast.walk(ast.parse(text, mode="eval")) if isinstance(n, ast.Name))
        except SyntaxError:
            r = frozenset()
        _idents[text] = r
    return r


def const(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


def walrus(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def walk_expr(e):
    """loads of an expression evaluated here, leaving out lambdas and names bound by comprehensions"""
    def go(n, bound):
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                yield from go(d, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            first = True
            for g in n.generators:
                yield from go(g.iter, bound if first else b)
                first = False
                b |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i in g.ifs:
                    yield from go(i, b)
            for f in ("elt", "key", "value"):
                v = getattr(n, f, None)
                if isinstance(v, ast.AST):
                    yield from go(v, b)
            return
        if isinstance(n, ast.NamedExpr):
            yield from go(n.value, bound)
            return
        if isinstance(n, ast.Name):
            if n.id not in bound:
                yield n
            return
        if isinstance(n, ast.AST):
            for c in ast.iter_child_nodes(n):
                yield from go(c, bound)
    # names assigned by := inside the expression are given the benefit of the doubt
    w = walrus(e) if isinstance(e, ast.AST) else set()
    yield from go(e, w)


def comp_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.comprehension):
            out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
    return out


def parents(root):
    p = getattr(root, "_parents", None)
    if p is None:
        p = {}
        for n in ast.walk(root):
            for c in ast.iter_child_nodes(n):
                p[c] = n
        root._parents = p
    return p


def protected(root, node, kinds):
    """inside the body of a try that catches one of these"""
    p = parents(root)
    n = node
    while n in p:
        q = p[n]
        if isinstance(q, ast.Try) and any(n is x for x in q.body):
            for h in q.handlers:
                if h.type is None:
                    return True
                t = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(h.type) if isinstance(x, (ast.Name, ast.Attribute))}
                if t & (set(kinds) | {"BaseException"}):
                    return True
        if isinstance(q, ast.With) and any(n is x for x in q.body):
            for i in q.items:
                if "suppress" in ast.unparse(i.context_expr):
                    return True
        n = q
    return False


def has_guard(root, node, attr):
    """under a test that mentions hasattr / getattr of this name, or a version check"""
    p = parents(root)
    n = node
    while n in p:
        q = p[n]
        if isinstance(q, (ast.If, ast.IfExp, ast.BoolOp)):
            t = ast.unparse(q.test if not isinstance(q, ast.BoolOp) else q)
            if "hasattr" in t or "version" in t or "TYPE_CHECKING" in t:
                return True
        n = q
    return False


def in_annotation(root, node):
    p = parents(root)
    n = node
    while n in p:
        q = p[n]
        if isinstance(q, ast.arg) or (isinstance(q, ast.AnnAssign) and q.annotation is n) or (isinstance(q, ast.FunctionDef) and q.returns is n):
            return True
        n = q
    return False


def canon(d):
    from . import lib
    return lib.canon(d)
