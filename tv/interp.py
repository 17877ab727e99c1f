"""Abstract interpreter for the Python subset used by (and around) torchiva.

The program is never executed: its syntax trees are evaluated over the abstract
domains of vals.py.  Branches whose condition the domains decide are followed;
other branches are followed both ways (each path is a separate abstract run,
enumerated by Explorer).  Loops with a literal trip count are expanded up to a
bound, other loops are iterated to a fixpoint with joins.
"""
import ast
import builtins
import os
import time
from collections import namedtuple

from .poly import Facts, P, Poly, lower
from .vals import *
from . import vals

Site = namedtuple("Site", "file line func text")

UNROLL = 16
# time limits in seconds: the whole check (a thorough run has more), one context
T_START = time.monotonic()
TIME_ALL = float(os.environ.get("TV_TIME", "600"))
TIME_ONE = 60.0
MAXDEPTH = 60
MAXSTEPS = 400000


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cnt(Exception):
    pass


class RangeV:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    @property
    def vn(self):
        return H("range", self.start, self.stop, self.step)


class SymIter:
    """iterable with symbolic number of elements"""

    def __init__(self, elem, n, label=""):
        self.elem, self.n, self.label = elem, n, label   # elem: callable(index Poly)->value


class EnumM:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    @property
    def vn(self):
        return ("enum", self.cls.name, self.name)

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class BodyExit(Exception):
    """return / break / continue leaving the body of a with statement"""


class Frame:
    __slots__ = ("fn", "env", "module", "node", "globals_", "nonlocals", "yields", "qual", "file", "selfv", "closure", "cmbody")

    def __init__(self, fn, env, module, qual, file):
        self.fn, self.env, self.module, self.qual, self.file = fn, env, module, qual, file
        self.node = None
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None
        self.closure = ()
        self.cmbody = None


class Program:
    """parsed sources of the package"""

    def __init__(self, root):
        self.root = root
        self.files = {}
        self.trees = {}
        self.pkg = "torchiva"
        base = os.path.join(root, "torchiva")
        for dp, dn, fn in os.walk(base):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in sorted(fn):
                if f.endswith(".py"):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)
                    mod = rel[:-3].replace(os.sep, ".")
                    if mod.endswith(".__init__"):
                        mod = mod[: -len(".__init__")]
                    self.files[mod] = path
        self.errors = {}
        for mod, path in self.files.items():
            with open(path) as fh:
                src = fh.read()
            try:
                self.trees[mod] = ast.parse(src, path)
            except SyntaxError as e:
                self.errors[mod] = str(e)

    def relfile(self, mod):
        return os.path.relpath(self.files[mod], self.root) if mod in self.files else mod

    def add_virtual(self, mod, src):
        """a driver module of the analyser (not part of the repository)"""
        self.files[mod] = os.path.join(self.root, mod.replace(".", "/") + ".py")
        self.trees[mod] = ast.parse(src, "<driver>")


class Decider:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []      # list of [choice, number of options, label]

    def choose(self, label, n=2):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append([c, n, label])
        return c


def stored_names(st):
    """names assigned in the body of a loop"""
    out = getattr(st, "_stored", None)
    if out is None:
        out = set()
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    out.add(x.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    out.update(x.names)
        st._stored = out
    return out


def _continues(b):
    """does the statement contain a `continue` of the enclosing loop"""
    if isinstance(b, ast.Continue):
        return True
    if isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return False
    if isinstance(b, (ast.For, ast.While)):
        return any(_continues(x) for x in b.orelse)
    return any(_continues(x) for x in ast.iter_child_nodes(b) if isinstance(x, (ast.stmt, ast.ExceptHandler)))


def head_exit(st):
    """`while True: if c: break; ...` as `while not c: ...`"""
    r = getattr(st, "_head", None)
    if r is None:
        r = st
        b = st.body[0] if st.body else None
        if (isinstance(st.test, ast.Constant) and st.test.value and isinstance(b, ast.If) and not b.orelse and len(b.body) == 1
                and isinstance(b.body[0], ast.Break) and len(st.body) > 1 and not st.orelse):
            t, neg = b.test, {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in neg:
                t = ast.copy_location(ast.Compare(t.left, [neg[type(t.ops[0])]()], t.comparators), t)
            else:
                t = ast.copy_location(ast.UnaryOp(ast.Not(), t), t)
            r = ast.copy_location(ast.While(t, st.body[1:], []), st)
        st._head = r
    return r


def static_steps(st):
    """{name: step} of names whose only assignment in the loop is one unconditional increment"""
    out = getattr(st, "_steps", None)
    if out is not None:
        return out
    out, cnt = {}, {}
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                cnt[x.id] = cnt.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for nm in x.names:
                    cnt[nm] = 9
    if isinstance(st, ast.For):
        for x in ast.walk(st.target):
            if isinstance(x, ast.Name):
                cnt[x.id] = 9

    def const(v):
        return v.value if isinstance(v, ast.Constant) and type(v.value) is int else None
    for b in st.body:
        nm = c = None
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, (ast.Add, ast.Sub)):
            nm, c = b.target.id, const(b.value)
            if c is not None and isinstance(b.op, ast.Sub):
                c = -c
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp):
            nm, l, r = b.targets[0].id, b.value.left, b.value.right
            me = [isinstance(x, ast.Name) and x.id == nm for x in (l, r)]
            if isinstance(b.value.op, ast.Add) and (me[0] or me[1]):
                c = const(r if me[0] else l)
            elif isinstance(b.value.op, ast.Sub) and me[0]:
                c = const(r)
                c = -c if c is not None else None
        if nm is not None and c and cnt.get(nm) == 1:
            out[nm] = c
        if _continues(b):
            break
    st._steps = out
    return out


class Interp:
    def __init__(self, prog, decider=None, setup=None):
        self.prog = prog
        self.decider = decider or Decider()
        self.facts = Facts()
        self.modules = {}
        self.stack = []
        self.events = []
        self.nograd = 0
        self.groups = {}
        self.unmodelled = {}
        self.heap = []
        self.ctrl_mix = []
        self.ctrl = []
        self.decided = {}
        self.visited = set()
        self.lines = set()
        self.gstate = {}
        self.callsites = set()
        self.steps = 0
        self.sym_count = {}
        self.default_dtype = F32
        self.depth = 0
        self.flags = {}
        self.loopdepth = 0
        self.opcount = 0
        self.rand = 0
        self.static_paths = {}
        self.vfs = None
        self.rng_epoch = 0
        self.guessed = 0
        from . import ops, lib
        self.ops = ops
        self.lib = lib

    # ------------------------------------------------------------------ sites
    def site(self):
        for fr in reversed(self.stack):
            if fr.node is not None:
                try:
                    text = ast.unparse(fr.node)
                except Exception:
                    text = "?"
                if len(text) > 120:
                    text = text[:117] + "..."
                return Site(fr.file, getattr(fr.node, "lineno", 0), fr.qual, text)
        return Site("?", 0, "?", "?")

    def event(self, kind, *payload):
        if kind in ("rng", "global_effect"):
            payload += (tuple((fr.file, fr.qual) for fr in self.stack),)
            if kind == "rng" and self.flags.get("fork_rng") or kind == "global_effect" and self.flags.get("catchw") and "warnings." in payload[0]:
                return None
            if kind == "global_effect" and self.flags.get("fork_rng") and "seed" in payload[0]:
                return None
        e = (kind, self.site()) + payload
        self.events.append(e)
        return e

    def error(self, kind, msg, why="op"):
        raise AbsRaise(kind, msg, self.site(), why)

    def group_vary(self, g):
        r = self.groups.get(g)
        if r is not None:
            return r
        if isinstance(g, tuple) and len(g) > 1:
            return self.group_vary(g[1])
        return ()

    def note_unmodelled(self, name):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1

    def rand_key(self):
        return ("r", self.rng_epoch, self.rand)

    def reset_rng(self, epoch=0):
        """same random stream for two runs that are compared"""
        self.rand = 0
        self.rng_epoch = epoch

    def fresh(self, base, lo=0):
        c = self.sym_count.get(base, 0)
        self.sym_count[base] = c + 1
        return self.facts.new_sym("%s#%d" % (base, c), lo)

    # ------------------------------------------------------------------ modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.prog.trees:
            if name in self.prog.errors:
                raise AbsRaise("SyntaxError", self.prog.errors[name], self.site())
            raise AbsRaise("ImportError", "no module %s" % name, self.site(), "import")
        # parents first
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Mod(name)
        m.ns["__name__"] = name
        self.modules[name] = m
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            self.modules[par].ns.setdefault(leaf, m)
        fr = Frame(None, m.ns, name, "<module>", self.prog.relfile(name))
        self.stack.append(fr)
        try:
            self.exec_block(self.prog.trees[name].body, fr)
        finally:
            self.stack.pop()
        if "." in name:
            self.modules[par].ns[leaf] = m
        return m

    def resolve_import(self, modname, level, cur):
        """-> Mod or Ext"""
        if level:
            base = cur
            if self.is_pkg(cur):
                up = level - 1
            else:
                up = level
            parts = base.split(".")
            if up:
                parts = parts[:-up]
            full = ".".join(parts + ([modname] if modname else []))
            return self.import_module(full)
        if modname == self.prog.pkg or modname.startswith(self.prog.pkg + ".") or modname in self.prog.trees:
            return self.import_module(modname)
        return Ext(modname)

    def is_pkg(self, mod):
        return self.prog.files.get(mod, "").endswith("__init__.py")

    # ------------------------------------------------------------------ decisions
    nforks = 0

    def decide(self, label):
        self.nforks += 1
        c = self.decider.choose(label)
        return c == 0

    def decide_cond(self, c):
        """truth of a size relation; forks when undecided"""
        r = self.facts.cmp(c.op, c.a, c.b)
        if r is not None:
            return r
        k = ("cond", c.op, (c.a - c.b).key())
        v = self.decide("%r" % c)
        cc = c if v else c.neg()
        self.facts.assume(cc.op, cc.a, cc.b)
        self.ctrl.append(("cond", repr(cc)))
        return v

    def truth(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, (int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Poly):
            return self.decide_cond(Cond("!=", v, 0))
        if isinstance(v, Cond):
            return self.decide_cond(v)
        if isinstance(v, BCond):
            if v.fact is not None:
                r = self.lib.decide_fact(self, v.fact)
                if r is not None:
                    return r != v.negated
            return self.opaque(v.vn, v, v.negated, v.fact)
        if isinstance(v, (SymRep, SymIter)):
            return self.decide_cond(Cond(">=", v.n, 1))
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            if any(isinstance(x, SymRep) for x in v):
                if all(isinstance(x, SymRep) for x in v):
                    return self.decide_cond(Cond(">=", v[0].n, 1))
                return True
            return len(v) > 0
        if isinstance(v, RangeV):
            return self.decide_cond(Cond(">", v.stop, v.start))
        if isinstance(v, Flt):
            if v.lo in ("gt0", "gtc", "nz"):
                return True
            return self.opaque(H("bool", v.vn), v, False)
        if isinstance(v, T):
            return self.opaque(H("bool", v.vn), v, False)
        if isinstance(v, (Unk, AStr)):
            if isinstance(v, AStr):
                return True
            return self.opaque(H("bool", v.vn), v, False)
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                f = self.lib.class_lookup(self, v.cls, nm)
                if isinstance(f, Fn):
                    return self.truth(self.call(BM(v, f), [], {}))
            return True
        return True

    def opaque(self, key, v, negated, fact=None):
        mix = getattr(v, "mix", None)
        if mix:
            self.ctrl_mix.extend(mix)
        if getattr(v, "data", False):
            self.event("data_branch")
        if key in self.decided:
            r = self.decided[key]
        else:
            r = self.decide("%s %s" % (fact or "?", self.site().text[:60]))
            self.decided[key] = r
            if fact is None:
                self.guessed += 1
        if fact is not None:
            self.lib.learn_fact(self, fact, r)
        return r != negated

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        if name in fr.env and name not in fr.globals_:
            return fr.env[name]
        for env in fr.closure:
            if name in env:
                return env[name]
        m = self.modules.get(fr.module)
        if m is not None and name in m.ns:
            return m.ns[name]
        if name in self.lib.BUILTINS:
            return self.lib.BUILTINS[name]
        if hasattr(builtins, name):
            return Ext("builtins." + name)
        if fr.fn is not None and name in self.local_names(fr.fn):
            self.error("UnboundLocalError", "local variable %r referenced before assignment" % name, "name")
        self.error("NameError", "name %r is not defined" % name, "name")

    _locals_cache = {}

    def local_names(self, fn):
        k = id(fn.node)
        r = Interp._locals_cache.get(k)
        if r is None:
            r = set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
            Interp._locals_cache[k] = r
        return r

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Cut("step limit")
        self.lines.add((fr.file, st.lineno))
        fr.node = st if not isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef, ast.ClassDef)) else getattr(st, "test", getattr(st, "iter", None)) or fr.node
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Cut("statement %s" % type(st).__name__)
        m(st, fr)

    def s_Expr(self, st, fr):
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.resolve_import(a.name, 0, fr.module)
            if a.asname:
                self.setname(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.setname(top, self.resolve_import(top, 0, fr.module), fr)

    def s_ImportFrom(self, st, fr):
        if st.module == "__future__":
            return
        m = self.resolve_import(st.module or "", st.level, fr.module)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            self.setname(k, v, fr)
                continue
            if isinstance(m, Mod):
                if a.name in m.ns:
                    v = m.ns[a.name]
                elif m.name + "." + a.name in self.prog.trees:
                    v = self.import_module(m.name + "." + a.name)
                else:
                    self.error("ImportError", "cannot import name %r from %s" % (a.name, m.name), "import")
            else:
                v = self.getattr(m, a.name)
            self.setname(a.asname or a.name, v, fr)

    def setname(self, name, v, fr):
        if name in fr.globals_:
            self.modules[fr.module].ns[name] = v
            self.event("global_write", fr.module, name)
            return
        if name in fr.nonlocals:
            for env in fr.closure:
                if name in env:
                    env[name] = v
                    return
        fr.env[name] = v

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_FunctionDef(self, st, fr):
        fr.node = st
        f = self.make_fn(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d, fr)
            v = self.apply_decorator(dv, v, fr)
        self.setname(st.name, v, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def make_fn(self, st, fr):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, fr)
        closure = ()
        if fr.fn is not None or fr.qual != "<module>":
            closure = (fr.env,) + tuple(fr.closure)
        if getattr(fr, "selfv", None) == "classbody":
            closure = tuple(fr.closure)
        name = getattr(st, "name", "<lambda>")
        qual = name if fr.qual == "<module>" else fr.qual + "." + name
        return Fn(name, st, fr.module, closure, qual, defaults, kwd)

    def apply_decorator(self, d, v, fr):
        if isinstance(d, Ext):
            n = d.name
            if n == "builtins.property":
                return Prop(v)
            if n in ("builtins.staticmethod", "builtins.classmethod"):
                return Static(v, n.split(".")[1])
            if n in ("torch.no_grad", "torch.inference_mode"):
                f = Fn(v.name, v.node, v.module, v.closure, v.qual, v.defaults, v.kwdefaults, v.cls)
                f.wrap = ("nograd",)
                return f
            if n in ("functools.lru_cache", "functools.cache"):
                if isinstance(v, Fn):
                    v.attrs["memo"] = True
                return v
            if n in ("abc.abstractmethod", "torch.jit.script", "torch.jit.export", "torch.jit.ignore", "typing.no_type_check",
                     "typing.overload", "functools.wraps", "contextlib.contextmanager", "enum.unique", "functools.total_ordering",
                     "abc.abstractproperty"):
                if n == "contextlib.contextmanager" and isinstance(v, Fn):
                    v.attrs["ctxmgr"] = True
                return v
            if n == "dataclasses.dataclass":
                v.ns["__dataclass__"] = True
                return v
            return self.call(d, [v], {})
        if isinstance(d, ExtObj):
            if d.cls == "torch.set_grad_enabled":
                self.nograd = d.attrs.get("__old", 0)
            if d.cls in ("torch.no_grad", "torch.inference_mode") or d.cls == "torch.set_grad_enabled" and d.args and d.args[0] is False:
                f = Fn(v.name, v.node, v.module, v.closure, v.qual, v.defaults, v.kwdefaults, v.cls)
                f.wrap = ("nograd",)
                return f
            if d.cls in ("functools.lru_cache", "functools.wraps", "torch.enable_grad"):
                return v
            if d.cls == "dataclasses.dataclass":
                v.ns["__dataclass__"] = True
                return v
            if d.cls.startswith("torch."):
                return v
        if isinstance(d, Bi) and d.name == "setter":
            return Prop(d.recv.fget, v)
        return self.call(d, [v], {})

    def s_ClassDef(self, st, fr):
        fr.node = st
        bases = [self.eval(b, fr) for b in st.bases]
        ns = {}
        cfr = Frame(fr.fn, ns, fr.module, st.name if fr.qual == "<module>" else fr.qual + "." + st.name, fr.file)
        cfr.selfv = "classbody"
        cfr.closure = tuple(fr.closure) if fr.qual == "<module>" else (fr.env,) + tuple(fr.closure)
        self.stack.append(cfr)
        try:
            self.exec_block(st.body, cfr)
        finally:
            self.stack.pop()
        cfr2 = None
        c = Cls(st.name, fr.module, st, bases, ns)
        c.file = fr.file
        self.lib.finish_class(self, c)
        v = c
        for d in reversed(st.decorator_list):
            v = self.apply_decorator(self.eval(d, fr), v, fr)
        self.setname(st.name, v, fr)

    def s_Return(self, st, fr):
        raise _Ret(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise _Brk()

    def s_Continue(self, st, fr):
        raise _Cnt()

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                if isinstance(o, dict):
                    o.pop(k, None)
                elif isinstance(o, list) and isinstance(k, int):
                    del o[k]
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Obj):
                    o.attrs.pop(t.attr, None)

    def s_Assert(self, st, fr):
        v = self.eval(st.test, fr)
        if self.assume_true(v):
            return
        msg = ""
        self.error("AssertionError", msg or ast.unparse(st.test)[:80], "assert")

    def assume_true(self, v):
        """assertions on opaque (data) conditions are assumed; on sizes they fork"""
        if isinstance(v, (BCond, T, Unk)) and not (isinstance(v, BCond) and v.fact is not None):
            return True
        return self.truth(v)

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = fr.env.get("__exc__")
            if isinstance(cur, AbsRaise):
                raise cur
            raise AbsRaise("RuntimeError", "re-raise", self.site())
        v = self.eval(st.exc, fr)
        kind, msg = "Exception", ""
        if isinstance(v, ExtObj):
            kind = v.cls.split(".")[-1]
            if v.args and isinstance(v.args[0], str):
                msg = v.args[0]
        elif isinstance(v, Ext):
            kind = v.name.split(".")[-1]
        elif isinstance(v, Obj):
            kind = v.cls.name
        elif isinstance(v, Cls):
            kind = v.name
        elif isinstance(v, AbsRaise):
            raise v
        raise AbsRaise(kind, msg, self.site(), "explicit", v)

    def s_If(self, st, fr):
        c = self.eval(st.test, fr)
        fr.node = st.test
        if self.truth(c):
            self.narrow(st.test, True, fr)
            self.exec_block(st.body, fr)
        else:
            self.narrow(st.test, False, fr)
            self.exec_block(st.orelse, fr)

    def narrow(self, test, val, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)
        elif getattr(fr, "selfv", None) == "classbody" and isinstance(st.target, ast.Name):
            fr.env.setdefault("__annotations__", []).append(st.target.id)
        if st.value is not None and getattr(fr, "selfv", None) == "classbody" and isinstance(st.target, ast.Name):
            fr.env.setdefault("__annotations__", []).append(st.target.id)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            rhs = self.eval(st.value, fr)
            v = self.aug(op, cur, rhs)
            self.setname(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.aug(op, cur, self.eval(st.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            rhs = self.eval(st.value, fr)
            if isinstance(cur, T):
                v = self.ops.binop(self, op, cur, rhs)
            else:
                v = self.aug(op, cur, rhs)
            self.setitem(o, k, v)
        else:
            raise Cut("augassign target")

    def aug(self, op, cur, rhs):
        if isinstance(cur, T) and cur.kind != "ndarray0":
            return self.ops.inplace_bin(self, op, cur, rhs)
        if isinstance(cur, list) and op == "Add":
            cur.extend(self.to_list(rhs))
            return cur
        return self.binop(op, cur, rhs)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Cut("assign target")

    def unpack(self, elts, v, fr):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Unk):
            for i, e in enumerate(elts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, self.derive_unk(v, "unpack%d" % i), fr)
            return
        items = self.to_list(v, want=None if star else n)
        if items is None:
            for i, e in enumerate(elts):
                self.assign(e, Unk("unpack", H("unpack", v, i)), fr)
            return
        if star:
            k = star[0]
            after = n - k - 1
            if len(items) < n - 1:
                self.error("ValueError", "not enough values to unpack", "unpack")
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, fr)
            self.assign(elts[k].value, list(items[k: len(items) - after]), fr)
            for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x, fr)
            return
        if len(items) != n:
            self.error("ValueError", "unpack %d values into %d targets" % (len(items), n), "unpack")
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    def derive_unk(self, v, tag):
        u = Unk(v.why, H("unk", v.vn, tag))
        u.data, u.stor, u.mix, u.sev = v.data, v.stor, v.mix, v.sev
        return u

    def to_list(self, v, want=None):
        """elements of an iterable with a known number of elements"""
        if isinstance(v, (list, tuple)):
            if any(isinstance(x, SymRep) for x in v):
                if want is not None and len(v) == 1:
                    r = v[0]
                    self.decide_cond_assume(Cond("==", r.n, want))
                    return [r.elem] * want
                out = []
                for x in v:
                    if isinstance(x, SymRep):
                        n = lower(x.n)
                        if isinstance(n, int):
                            out.extend([x.elem] * n)
                        else:
                            return None if want is None else None
                    else:
                        out.append(x)
                return out
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return list(v)
        if isinstance(v, RangeV):
            if all(isinstance(lower(x) if isinstance(x, Poly) else x, int) for x in (v.start, v.stop, v.step)):
                return list(range(lower(P(v.start)), lower(P(v.stop)), lower(P(v.step))))
            return None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, T):
            if v.shape is None or not v.shape:
                return None
            n = lower(v.shape[0].size)
            if isinstance(n, int):
                return [self.getitem(v, i) for i in range(n)]
            if want is not None:
                if self.facts.cmp("==", n, want) is False:
                    self.error("ValueError", "unpack axis of size %r into %d targets" % (n, want), "unpack")
                return [self.getitem(v, i) for i in range(want)]
            return None
        if isinstance(v, Cls) and v.ns.get("__enum__"):
            return list(v.ns["__enum__"].values())
        if isinstance(v, ExtObj):
            return self.lib.ext_list(self, v)
        if isinstance(v, Obj):
            it = self.lib.class_lookup(self, v.cls, "__iter__")
            if isinstance(it, Fn):
                return self.to_list(self.call(BM(v, it), [], {}))
        if isinstance(v, SymIter):
            n = lower(v.n)
            if isinstance(n, int):
                return [v.elem(P(i)) for i in range(n)]
        return None

    def decide_cond_assume(self, c):
        r = self.facts.cmp(c.op, c.a, c.b)
        if r is None:
            self.facts.assume(c.op, c.a, c.b)

    # ---- loops
    def sym_iter(self, v):
        """-> (elem(i), n) for iterables of symbolic length"""
        if isinstance(v, RangeV):
            if isinstance(lower(P(v.step)), int) and lower(P(v.step)) == 1:
                n = P(v.stop) - P(v.start)
                return (lambda i: lower(P(v.start) + i)), n
            if isinstance(lower(P(v.step)), int) and lower(P(v.step)) == -1:
                n = P(v.start) - P(v.stop)
                return (lambda i: lower(P(v.start) - i)), n
            n = self.fresh("rangelen")
            return (lambda i: Unk("range step")), n
        if isinstance(v, T) and v.shape:
            n = v.shape[0].size
            return (lambda i: self.getitem(v, i)), n
        if isinstance(v, (list, tuple)) and len(v) == 1 and isinstance(v[0], SymRep):
            return (lambda i: v[0].elem), v[0].n
        if isinstance(v, (list, tuple)):
            n = P(0)
            el = None
            for x in v:
                e = x.elem if isinstance(x, SymRep) else x
                n = n + (x.n if isinstance(x, SymRep) else 1)
                el = e if el is None else self.join(el, e)
            return (lambda i: el), n
        if isinstance(v, SymIter):
            return v.elem, v.n
        if isinstance(v, ExtObj):
            r = self.lib.ext_iter(self, v)
            if r is not None:
                return r
        u = v if isinstance(v, Unk) else Unk("iter", H("iter", v))
        key = "len:" + H(u)
        n = self.facts.new_sym(key, 0)
        return (lambda i: self.derive_unk(u, "elem")), n

    def s_For(self, st, fr):
        v = self.eval(st.iter, fr)
        fr.node = st.iter
        items = None
        if not (isinstance(v, RangeV) and self.range_len(v) is not None and self.range_len(v) > UNROLL):
            items = self.to_list(v)
        if items is not None and len(items) <= 64:
            for x in items:
                self.assign(st.target, x, fr)
                try:
                    self.exec_block(st.body, fr)
                except _Brk:
                    return
                except _Cnt:
                    continue
            self.exec_block(st.orelse, fr)
            return
        elem, n = self.sym_iter(v)
        if not self.decide_cond(Cond(">=", n, 1)):
            self.exec_block(st.orelse, fr)
            return
        broke = self.fixpoint(st, fr, elem, n)
        if not broke:
            self.exec_block(st.orelse, fr)

    def range_len(self, v):
        a, b, c = (lower(P(x)) for x in (v.start, v.stop, v.step))
        if all(isinstance(x, int) for x in (a, b, c)) and c != 0:
            return len(range(a, b, c))
        return None

    def loop_index(self, st, n, it):
        name = "k%d@%s:%s" % (it, H(ast.unparse(st.target) if hasattr(st, "target") else "w", repr(P(n).key()))[:8], self.loopdepth)
        p = self.facts.new_sym(name, 0)
        self.facts.add(P(n) - 1 - p)
        return p

    def snapshot(self, fr):
        s = {"env": {k: self.snap(v) for k, v in fr.env.items()}}
        s["heap"] = [(o, {k: self.snap(v) for k, v in o.attrs.items()}) for o in self.heap]
        return s

    def snap(self, v, d=0):
        if isinstance(v, T):
            return v.clone()
        if d < 3:
            if isinstance(v, list):
                return [self.snap(x, d + 1) for x in v]
            if type(v) is tuple:
                return tuple(self.snap(x, d + 1) for x in v)
            if isinstance(v, dict):
                return {k: self.snap(x, d + 1) for k, x in v.items()}
        return v

    def fixpoint(self, st, fr, elem, n):
        self.loopdepth += 1
        broke = False
        try:
            prev = None
            ind = self.induction(st, fr)
            for it in range(5):
                k = self.loop_index(st, n, min(it, 1))
                for nm, (v0, c) in ind.items():
                    fr.env[nm] = lower(P(v0) + P(k) * c)
                before_lists = self.list_lens(fr)
                if st.__class__ is ast.For:
                    self.assign(st.target, elem(k), fr)
                try:
                    self.exec_block(st.body, fr)
                except _Brk:
                    broke = True
                except _Cnt:
                    pass
                self.widen_lists(fr, before_lists, n)
                self.generalise(fr, k, n)
                if not broke:
                    for nm, (v0, c) in ind.items():
                        fr.env[nm] = lower(P(v0) + P(n) * c)
                cur = self.snapshot(fr)
                if broke:
                    break
                if prev is not None:
                    j, same = self.join_snap(prev, cur)
                    if same:
                        self.restore(fr, j)
                        break
                    self.restore(fr, j)
                    prev = self.snapshot(fr)
                else:
                    prev = cur
            return broke
        finally:
            self.loopdepth -= 1

    def list_lens(self, fr):
        out = {}
        def visit(v, d=0):
            if isinstance(v, list) and d < 3:
                out[id(v)] = (v, len(v))
                for x in v:
                    visit(x, d + 1)
            elif isinstance(v, dict) and d < 3:
                for x in v.values():
                    visit(x, d + 1)
        for v in fr.env.values():
            visit(v)
        for o in self.heap:
            for v in o.attrs.values():
                visit(v)
        return out

    def widen_lists(self, fr, before, n):
        for v, ln in before.values():
            if len(v) > ln:
                new = v[ln:]
                el = new[0]
                for x in new[1:]:
                    el = self.join(el, x)
                old = v[:ln]
                if old and isinstance(old[-1], SymRep):
                    r = old[-1]
                    v[:] = old[:-1] + [SymRep(self.join(r.elem, el), r.n)]
                else:
                    v[:] = old + [SymRep(el, P(n) * len(new))]

    def generalise(self, fr, k, n):
        """eliminate the loop index from frame-shift ranges"""
        (sym,) = k.symbols()
        def g(v, d=0):
            if isinstance(v, T) and v.lags:
                new = set()
                for lo, hi in v.lags:
                    if sym in P(lo).symbols() or sym in P(hi).symbols():
                        l0, l1 = P(lo).subst(sym, 0), P(lo).subst(sym, P(n) - 1)
                        h0, h1 = P(hi).subst(sym, 0), P(hi).subst(sym, P(n) - 1)
                        lo2 = l0 if self.facts.prove_ge0(l1 - l0) else l1
                        hi2 = h1 if self.facts.prove_ge0(h1 - h0) else h0
                        new.add((lo2, hi2))
                    else:
                        new.add((lo, hi))
                v.lags = frozenset(new)
            elif isinstance(v, (list, tuple)) and d < 2:
                for x in v:
                    g(x, d + 1)
        for v in fr.env.values():
            g(v)

    def join_snap(self, a, b):
        same = True
        env = {}
        for k, v in b["env"].items():
            if k in a["env"]:
                j = self.join(a["env"][k], v)
                if not self.same(j, a["env"][k]):
                    same = False
                env[k] = j
            else:
                env[k] = v
                same = False
        heap = []
        ha = {id(o): at for o, at in a["heap"]}
        for o, at in b["heap"]:
            if id(o) in ha:
                old = ha[id(o)]
                d = {}
                for k, v in at.items():
                    if k in old:
                        d[k] = self.join(old[k], v)
                        if not self.same(d[k], old[k]):
                            same = False
                    else:
                        d[k] = v
                heap.append((o, d))
            else:
                heap.append((o, at))
        return {"env": env, "heap": heap}, same

    def restore(self, fr, s):
        for k, v in s["env"].items():
            cur = fr.env.get(k)
            if isinstance(cur, T) and isinstance(v, T):
                cur.become(v)
            elif isinstance(cur, list) and isinstance(v, list):
                cur[:] = v
            else:
                fr.env[k] = v
        for o, at in s["heap"]:
            for k, v in at.items():
                cur = o.attrs.get(k)
                if isinstance(cur, T) and isinstance(v, T):
                    cur.become(v)
                elif isinstance(cur, list) and isinstance(v, list):
                    cur[:] = v
                else:
                    o.attrs[k] = v

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            return self.ops.same_T(self, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return a.keys() == b.keys() and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, SymRep) and isinstance(b, SymRep):
            return self.same(a.elem, b.elem)
        if isinstance(a, Poly) or isinstance(b, Poly):
            try:
                return P(a) == P(b)
            except TypeError:
                return False
        if isinstance(a, Unk) and isinstance(b, Unk):
            return True
        if isinstance(a, Flt) and isinstance(b, Flt):
            return a.lo == b.lo and a.hi == b.hi
        try:
            return type(a) is type(b) and a == b
        except Exception:
            return False

    def join(self, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return self.ops.join_T(self, a, b)
        if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
            r = [self.join(x, y) for x, y in zip(a, b)]
            if isinstance(a, NT):
                return NT.make(r, a.names, a.tname)
            return type(a)(r)
        if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            return {k: self.join(a[k], b[k]) for k in a}
        if isinstance(a, SymRep) and isinstance(b, SymRep):
            return SymRep(self.join(a.elem, b.elem), a.n)
        if isinstance(a, Flt) and isinstance(b, Flt):
            return self.ops.join_flt(a, b)
        if self.same(a, b):
            return a
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and not isinstance(a, bool) and not isinstance(b, bool):
            return Unk("int", H("phi", a, b))
        u = Unk("join", H("phi", a, b))
        return u

    def induction(self, st, fr):
        """names that change by a constant in every iteration: {name: (value before the loop, step)}"""
        out = {}
        for nm, c in static_steps(st).items():
            v = fr.env.get(nm)
            if isinstance(v, (int, Poly)) and not isinstance(v, bool):
                out[nm] = (v, c)
        return out

    def count_loop(self, st, fr):
        """number of iterations of `while i < n` with a constant step, or None"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, op, b = t.left, type(t.ops[0]).__name__, t.comparators[0]
        ind = self.induction(st, fr)
        if not (isinstance(a, ast.Name) and a.id in ind):
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if not (isinstance(a, ast.Name) and a.id in ind):
            return None
        if any(isinstance(x, (ast.Call, ast.Await, ast.NamedExpr, ast.Lambda)) for x in ast.walk(b)):
            return None
        names = {x.id for x in ast.walk(b) if isinstance(x, ast.Name)}
        if names & stored_names(st):
            return None
        v0, c = ind[a.id]
        bound = self.eval(b, fr)
        if isinstance(bound, bool) or not isinstance(bound, (int, Poly)):
            return None
        if c > 0 and op in ("Lt", "LtE"):
            d = P(bound) - P(v0) + (1 if op == "LtE" else 0)
        elif c < 0 and op in ("Gt", "GtE"):
            d = P(v0) - P(bound) + (1 if op == "GtE" else 0)
        elif op == "NotEq" and abs(c) == 1:
            d = (P(bound) - P(v0)) * c
        else:
            return None
        if abs(c) == 1:
            return lower(d)
        d = lower(d)
        return -(-d // abs(c)) if isinstance(d, int) else None

    def s_While(self, st, fr):
        st = head_exit(st)
        n = self.count_loop(st, fr)
        if n is not None and not (isinstance(n, int) and n <= UNROLL):
            if not self.decide_cond(Cond(">=", P(n), 1)):
                self.exec_block(st.orelse, fr)
                return
            if not self.fixpoint(st, fr, lambda i: None, n):
                self.exec_block(st.orelse, fr)
            return
        # iterations whose course is known run one by one; after a few undecided ones the state is widened
        guessed = 0
        for it in range(64):
            f0 = self.nforks
            if not self.truth(self.while_test(st, fr)):
                self.exec_block(st.orelse, fr)
                return
            try:
                self.exec_block(st.body, fr)
            except _Brk:
                return
            except _Cnt:
                pass
            guessed += self.nforks > f0
            if guessed >= 4:
                break
        prev = None
        for it in range(5):
            for nm in stored_names(st):
                v = fr.env.get(nm)
                if isinstance(v, (int, Poly)) and not isinstance(v, bool):
                    fr.env[nm] = Unk("int", H("while", nm, v))
            if not self.truth(self.while_test(st, fr)):
                self.exec_block(st.orelse, fr)
                return
            before = self.list_lens(fr)
            try:
                self.exec_block(st.body, fr)
            except _Brk:
                return
            except _Cnt:
                pass
            self.widen_lists(fr, before, self.fresh("while", 1))
            cur = self.snapshot(fr)
            if prev is not None:
                j, same = self.join_snap(prev, cur)
                self.restore(fr, j)
                if same:
                    break
                cur = self.snapshot(fr)
            prev = cur
        self.exec_block(st.orelse, fr)

    def while_test(self, st, fr):
        c = self.eval(st.test, fr)
        fr.node = st.test
        return c

    def s_With(self, st, fr):
        self.with_items(st, fr, 0)

    def with_items(self, st, fr, i):
        if i == len(st.items):
            self.exec_block(st.body, fr)
            return
        it = st.items[i]
        cm = self.eval(it.context_expr, fr)
        fr.node = it.context_expr
        if isinstance(cm, ExtObj) and cm.cls == "gencm":
            def body(val):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, val, fr)
                # the body runs in its own frame, below the generator on the stack
                top = []
                while self.stack and self.stack[-1] is not fr:
                    top.append(self.stack.pop())
                try:
                    self.with_items(st, fr, i + 1)
                finally:
                    self.stack.extend(reversed(top))
            self.call_fn(cm.args[0], cm.attrs["args"], cm.attrs["kwargs"], body)
            return
        val = self.lib.ctx_enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        try:
            self.with_items(st, fr, i + 1)
        except AbsRaise as e:
            if e.kind == "Killed":
                raise
            self.lib.ctx_exit(self, cm)
            if not self.suppresses(cm, e, fr):
                raise
            return
        except BaseException:
            self.lib.ctx_exit(self, cm)
            raise
        self.lib.ctx_exit(self, cm)

    def suppresses(self, cm, e, fr):
        if isinstance(cm, ExtObj) and cm.cls == "contextlib.suppress":
            for x in cm.args:
                nm = x.name.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", None)
                if nm in self.exc_kinds(e):
                    return True
        return False

    s_AsyncWith = s_With

    def s_Try(self, st, fr):
        try:
            self.flags["try"] = self.flags.get("try", 0) + 1
            try:
                self.exec_block(st.body, fr)
            finally:
                self.flags["try"] -= 1
        except AbsRaise as e:
            if e.kind == "Killed":
                raise
            for h in st.handlers:
                if self.handler_matches(h, e, fr):
                    if h.name:
                        fr.env[h.name] = Unk("exception", H("exc", e.kind))
                    old = fr.env.get("__exc__")
                    fr.env["__exc__"] = e
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        if old is None:
                            fr.env.pop("__exc__", None)
                        else:
                            fr.env["__exc__"] = old
                        self.exec_finally(st, fr)
                    return
            self.exec_finally(st, fr)
            raise
        except (_Ret, _Brk, _Cnt, BodyExit):
            self.exec_finally(st, fr)
            raise
        else:
            self.exec_block(st.orelse, fr)
            self.exec_finally(st, fr)

    def exec_finally(self, st, fr):
        if st.finalbody:
            self.exec_block(st.finalbody, fr)

    PARENTS = {"FileNotFoundError": ["OSError", "IOError"], "ModuleNotFoundError": ["ImportError"],
               "UnboundLocalError": ["NameError"], "KeyError": ["LookupError"], "IndexError": ["LookupError"],
               "NotImplementedError": ["RuntimeError"], "ZeroDivisionError": ["ArithmeticError"],
               "LinAlgError": ["RuntimeError"], "_LinAlgError": ["RuntimeError"], "URLError": ["OSError"], "HTTPError": ["URLError", "OSError"],
               "FileExistsError": ["OSError"], "IsADirectoryError": ["OSError"]}

    def handler_matches(self, h, e, fr):
        if h.type is None:
            return True
        v = self.eval(h.type, fr)
        vs = v if isinstance(v, tuple) else (v,)
        kinds = self.exc_kinds(e)
        for x in vs:
            nm = x.name.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", None)
            if nm in kinds:
                return True
        return False

    def exc_kinds(self, e):
        kinds = {e.kind, "BaseException"} | set(self.PARENTS.get(e.kind, []))
        if e.kind not in ("KeyboardInterrupt", "SystemExit"):
            kinds.add("Exception")
        return kinds

    def s_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        fr.node = st.subject
        for case in st.cases:
            if self.match_pat(case.pattern, subj, fr) and (case.guard is None or self.truth(self.eval(case.guard, fr))):
                self.exec_block(case.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.setname(p.name, v, fr)
            return True
        raise Cut("match pattern")

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Unk("expr %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        r = self.eval_elts(e.elts, fr)
        try:
            return set(r)
        except TypeError:
            return tuple(r)

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                l = self.to_list(v)
                if l is None:
                    if isinstance(v, (list, tuple)):
                        l = list(v)
                    else:
                        el, n = self.sym_iter(v)
                        l = [SymRep(el(self.facts.new_sym("star", 0)), n)]
                out.extend(l)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, fr)
                if isinstance(x, dict):
                    d.update(x)
                continue
            kk = self.eval(k, fr)
            vv = self.eval(v, fr)
            try:
                d[kk] = vv
            except TypeError:
                pass
        return d

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        return self.getattr(v, e.attr)

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        k = self.eval(e.slice, fr)
        return self.getitem(v, k)

    def e_Slice(self, e, fr):
        return slice(*(None if x is None else self.eval(x, fr) for x in (e.lower, e.upper, e.step)))

    def e_Index(self, e, fr):
        return self.eval(e.value, fr)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, (Cond, BCond)):
                return v.neg()
            return not self.truth(v)
        if isinstance(v, (int, float)) and op == "USub":
            return -v
        if isinstance(v, (int, float)) and op == "UAdd":
            return +v
        if isinstance(v, int) and op == "Invert":
            return ~v
        if isinstance(v, Poly) and op == "USub":
            return lower(-v)
        if isinstance(v, T):
            return self.ops.unary(self, {"USub": "neg", "UAdd": "pos", "Invert": "bitwise_not"}[op], v)
        if isinstance(v, Flt) and op == "USub":
            r = Flt(H("neg", v), "any", False, v.data)
            r.sev, r.mix, r.nan = v.sev, v.mix, v.nan
            if v.lo in ("gt0", "gtc", "nz"):
                r.lo = "nz"
            return r
        if isinstance(v, BCond) and op == "Invert":
            return v.neg()
        return Unk("unary", H("un", op, v))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (Cond, BCond, T, Unk)) else False
            if not isand and t:
                return v if not isinstance(v, (Cond, BCond)) else True
        return v

    def e_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        if self.truth(c):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                parts.append(x)
        if all(isinstance(p, (str, int, float)) or p is None for p in parts):
            return "".join(str(p) for p in parts)
        return self.lib.mk_str(self, parts)

    def e_FormattedValue(self, e, fr):
        return self.eval(e.value, fr)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, fr)
            o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is",
                 "IsNot": "is not", "In": "in", "NotIn": "not in"}[type(op).__name__]
            r = self.compare(o, left, right)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        args = []
        kwargs = {}
        # super() with no arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.fn.cls if fr.fn is not None else None
            node = fr.fn.node if fr.fn is not None else None
            if cls is None or not node.args.args:
                for env in fr.closure:
                    pass
                return Unk("super")
            selfv = fr.env.get(node.args.args[0].arg)
            return SuperV(cls, selfv)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                l = self.to_list(v)
                if l is None:
                    if isinstance(v, (list, tuple)):
                        args.extend(v)
                    else:
                        args.append(SymRep(Unk("star arg", H("star", v)), self.fresh("star")))
                else:
                    args.extend(l)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, dict):
                    for kk, vv in v.items():
                        if kk in kwargs:
                            self.error("TypeError", "multiple values for keyword %s" % kk, "signature")
                        kwargs[kk] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        old = fr.node
        fr.node = e
        self.callsites.add((fr.file, fr.qual, e.lineno, e.col_offset))
        try:
            return self.call(f, args, kwargs)
        finally:
            fr.node = old

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        try:
            return set(r)
        except TypeError:
            return r

    def e_DictComp(self, e, fr):
        out = {}
        def emit(sub):
            k = self.eval(e.key, sub)
            out[k] = self.eval(e.value, sub)
            return None
        self.comp(e, fr, emit)
        return out

    def comp(self, e, fr, emit=None):
        sub = Frame(fr.fn, {}, fr.module, fr.qual, fr.file)
        sub.closure = ((fr.env,) + tuple(fr.closure)) if fr.qual != "<module>" or fr.fn is not None else tuple(fr.closure)
        sub.node = fr.node
        out = []
        self.stack.append(sub)
        try:
            def gen(i):
                if i == len(e.generators):
                    if emit is not None:
                        emit(sub)
                    else:
                        out.append(self.eval(e.elt, sub))
                    return
                g = e.generators[i]
                v = self.eval(g.iter, sub if i else fr)
                items = None
                if not (isinstance(v, RangeV) and (self.range_len(v) or 0) > UNROLL):
                    items = self.to_list(v)
                if items is None and isinstance(v, (list, tuple)):
                    items = list(v)
                if items is not None:
                    for x in items:
                        if isinstance(x, SymRep):
                            self.assign(g.target, x.elem, sub)
                            if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                                k = len(out)
                                gen(i + 1)
                                for j in range(k, len(out)):
                                    out[j] = SymRep(out[j], x.n)
                            continue
                        self.assign(g.target, x, sub)
                        if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                            gen(i + 1)
                else:
                    elem, n = self.sym_iter(v)
                    if self.facts.cmp(">=", n, 1) is False:
                        return
                    k = self.loop_index(g, n, 0)
                    k0 = len(out)
                    self.assign(g.target, elem(k), sub)
                    if all(self.truth(self.eval(c, sub)) for c in g.ifs):
                        gen(i + 1)
                        for j in range(k0, len(out)):
                            out[j] = SymRep(out[j], n)
            gen(0)
        finally:
            self.stack.pop()
        return out

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        if fr.cmbody is not None:
            body, fr.cmbody = fr.cmbody, None
            try:
                body(v)
            except (_Ret, _Brk, _Cnt) as x:
                raise BodyExit(x)
            return None
        if fr.yields is not None:
            fr.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        l = self.to_list(v)
        if fr.yields is not None:
            fr.yields.extend(l if l is not None else [Unk("yield from")])
        return None

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)

    # ------------------------------------------------------------------ operations
    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def getattr(self, v, name):
        return self.lib.getattr_(self, v, name)

    def setattr(self, o, name, v):
        return self.lib.setattr_(self, o, name, v)

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, BM):
            return self.call(f.fn, [f.obj] + list(args), kwargs)
        return self.lib.call(self, f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        env = {}
        args = list(args)
        # symbolic repetition in positional arguments
        rest = []
        for i, x in enumerate(args):
            if isinstance(x, SymRep) and not a.vararg:
                rest = None
        if rest is None:
            args = [x for x in args if not isinstance(x, SymRep)]
        if len(args) > len(pos):
            if a.vararg is None:
                self.error("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)), "signature")
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        unknown_kw = kwargs.pop("**", None) if "**" in kwargs else None
        for k, v in kwargs.items():
            if k in pos or k in kwo:
                if k in env:
                    self.error("TypeError", "%s() got multiple values for argument %r" % (f.name, k), "signature")
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.error("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k), "signature")
        if a.kwarg is not None:
            env[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                elif unknown_kw is not None:
                    env[n] = Unk("**kw", H("kw", unknown_kw, n))
                else:
                    self.error("TypeError", "%s() missing required argument %r" % (f.name, n), "signature")
        for n in kwo:
            if n not in env:
                if n in f.kwdefaults:
                    env[n] = f.kwdefaults[n]
                elif unknown_kw is not None:
                    env[n] = Unk("**kw")
                else:
                    self.error("TypeError", "%s() missing keyword argument %r" % (f.name, n), "signature")
        return env

    _gen_cache = {}

    def is_gen(self, node):
        k = id(node)
        r = Interp._gen_cache.get(k)
        if r is None:
            r = False
            def walk(n):
                nonlocal r
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        r = True
                    walk(c)
            walk(node)
            Interp._gen_cache[k] = r
        return r

    def call_fn(self, f, args, kwargs, cmbody=None):
        if self.depth > MAXDEPTH:
            raise Cut("recursion")
        if cmbody is None and f.attrs.get("ctxmgr") and self.is_gen(f.node):
            o = ExtObj("gencm", (f,), {})
            o.attrs["args"], o.attrs["kwargs"] = args, kwargs
            return o
        env = self.bind(f, args, dict(kwargs))
        fr = Frame(f, env, f.module, f.qual if f.cls is None else f.cls.name + "." + f.name, self.prog.relfile(f.module))
        fr.closure = f.closure
        self.visited.add((fr.file, fr.qual))
        self.stack.append(fr)
        self.depth += 1
        ng = "nograd" in f.wrap
        if ng:
            self.nograd += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if cmbody is not None:
                fr.cmbody = cmbody
                try:
                    self.exec_block(f.node.body, fr)
                except _Ret:
                    pass
                except BodyExit as x:
                    raise x.args[0]
                return None
            if self.is_gen(f.node):
                fr.yields = []
                try:
                    self.exec_block(f.node.body, fr)
                except _Ret:
                    pass
                return fr.yields
            try:
                self.exec_block(f.node.body, fr)
            except _Ret as r:
                return r.v
            return None
        finally:
            if ng:
                self.nograd -= 1
            self.depth -= 1
            self.stack.pop()


class Outcome:
    """result of one abstract path"""

    def __init__(self, interp, value=None, exc=None, cut=None, trace=()):
        self.I, self.value, self.exc, self.cut, self.trace = interp, value, exc, cut, trace


def explore(prog, scenario, max_paths=64):
    """enumerate the abstract paths of scenario(I)"""
    outs = []
    prefix = []
    complete = True
    t0 = time.monotonic()
    while True:
        dec = Decider(prefix)
        I = Interp(prog, dec)
        now = time.monotonic()
        if now - T_START > TIME_ALL or now - t0 > TIME_ONE:
            outs.append(Outcome(I, cut="time limit"))
            outs[-1].trace = []
            return outs, False
        try:
            v = scenario(I)
            o = Outcome(I, value=v)
        except AbsRaise as e:
            o = Outcome(I, exc=e)
        except Infeasible:
            o = None
        except Cut as e:
            o = Outcome(I, cut=str(e))
        except RecursionError:
            o = Outcome(I, cut="recursion")
        except (_Brk, _Cnt, _Ret):
            o = Outcome(I, cut="control")
        except Exception as e:
            # a construct the analysis itself cannot handle: undecided
            if os.environ.get("TV_DEBUG"):
                raise
            o = Outcome(I, cut="analysis: %s: %s" % (type(e).__name__, str(e)[:80]))
        if o is not None:
            o.trace = list(dec.trace)
            outs.append(o)
        # next prefix (depth first)
        t = dec.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            break
        t[-1][0] += 1
        prefix = [x[0] for x in t]
        if len(outs) >= max_paths:
            complete = False
            break
    return outs, complete
