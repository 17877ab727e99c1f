"""Hidden effects, name binding, shipped configurations."""
import ast
import json
import os
from .poly import P
from .vals import *
from .interp import Program, explore, Interp, Site
from . import scen, vals, vfs, lib, static
from .checks import check, multi, clean, definite_exc, witness, wtext, exc_bad
from .contexts import contexts, FS

LIBRARY_LAYERS = "torchiva/models/"


def explained(ctx, node_kind=None):
    return ctx


# ---------------------------------------------------------------------------
def rng_allowed(e):
    """the initialisation of the low-rank model and of network layers"""
    kind, stack = e[2], e[-1]
    if kind in ("layer-init", "dropout"):
        return any(f.startswith(LIBRARY_LAYERS) or f == "tvdriver.py" for f, q in stack) or not stack
    return any(q.split(".")[0] == "NMFModel" for f, q in stack)


@check("C22", "Every module is imported, and every algorithm, helper, model, separator, loader call and command of the catalogue is interpreted with a log of effects: "
       "changes of process-wide state (random generators, default dtype, gradient mode, threads, backends, environment, warning filters, working directory), random draws with the call stack, "
       "and the files present afterwards. Statements no context reaches are searched for calls that resolve to such effects.",
       "effect analysis: no process-wide effect reaches the end of any path; draws only in the low-rank model and network layers; files only where asked")
def c22(prog, R, tier):
    for c in contexts(prog, tier):
        outs, comp = multi(prog, R, c.run, c.name)
        for o in outs:
            effects_verdict(R, outs, o, c)
    unreached_effects(prog, R)


def effects_verdict(R, outs, o, c):
    I, ctx = o.I, c.name
    if o.cut:
        R.unk("analysed", ctx, o.cut)
        return
    if o.exc and c.valid and not clean(o):
        R.unk("analysed", ctx, "raises on a guessed path: %s" % o.exc)
    if witness(o) is None:
        return
    bad = False
    for e in I.events:
        if e[0] == "global_effect":
            bad = True
            R.bad("no-global-effect", e[1], "%s: %s" % (e[2], "at import" if c.kind == "import" else "in " + c.kind), ctx)
        elif e[0] == "rng" and not rng_allowed(e):
            bad = True
            R.bad("no-hidden-randomness", e[1], "random numbers are drawn (%s)" % e[2], ctx)
    if I.nograd != 0:
        bad = True
        R.bad("no-global-effect", None, "the gradient mode is not put back%s" % (" when %s" % o.exc if o.exc else ""), ctx, key="nograd:" + c.kind)
    if I.default_dtype is not F32:
        bad = True
        R.bad("no-global-effect", None, "the default dtype is %s afterwards" % I.default_dtype, ctx, key="dtype:" + c.kind)
    fs0 = I.flags.get("fs0")
    if fs0 is not None:
        new = [p for p, v in I.vfs.items() if fs0.get(p) != v] + [p for p in fs0 if p not in I.vfs]
        extra = [p for p in new if not any(p == a or p.startswith(a.rstrip("/") + "/") or (fs0.get(a) or ("",))[0] == "link" for a in c.allowed)]
        if extra and not (o.exc and c.kind in ("command", "loader")):
            bad = True
            R.bad("no-stray-files", None, "%s is created, changed or removed" % ", ".join(sorted(extra)[:3]), ctx, key="files:%s" % c.kind)
        lost = [e for e in I.events if e[0] in ("file_write", "file_remove", "mkdir") and e[2] is None]
        if lost:
            if c.kind in ("algorithm", "helper", "separator", "override", "import", "failing-model"):
                bad = True
                R.bad("no-stray-files", lost[0][1], "a file is written", ctx)
            else:
                R.unk("no-stray-files", ctx, "a path is not tracked")
    if not bad:
        R.ok("no-effect", ctx)


SAFE_WITH = ("torch.random.fork_rng", "warnings.catch_warnings", "numpy.errstate", "numpy.printoptions")


def unreached_effects(prog, R):
    """statements that no context executed: resolve what they call"""
    n = 0
    for mod in sorted(prog.trees):
        if mod.startswith("tvdriver"):
            continue
        M = static.ModInfo(prog, mod)
        scopes = [("<module>", M.tree)] + M.funcs
        for q, fn in scopes:
            tab = M.local_imports(fn) if q != "<module>" else M.imports
            shadow = static.stores(fn) - set(x for x in tab) if q != "<module>" else ()
            for st in statements(fn):
                n += 1
                if (M.file, st.lineno) in R.lines or guarded(fn, st, tab):
                    continue
                for e in own_exprs(st):
                    nm = None
                    if isinstance(e, ast.Call):
                        nm = static.dotted(e.func, tab, shadow)
                        if nm and (lib.canon(nm) in lib.SIDE or lib.is_side(lib.canon(nm))):
                            R.bad("unreached-effect", Site(M.file, e.lineno, q, ast.unparse(e)[:100]), "process-wide effect %s" % nm, "statement %s:%d" % (M.file, st.lineno))
                        continue
                if isinstance(st, (ast.Assign, ast.AugAssign)):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        b = t.value if isinstance(t, (ast.Attribute, ast.Subscript)) else None
                        nm = static.dotted(b, tab, shadow) if b is not None else None
                        if nm and not nm.startswith("torchiva") and (isinstance(t, ast.Attribute) or nm in ("os.environ", "sys.path", "sys.modules")):
                            R.bad("unreached-effect", Site(M.file, st.lineno, q, ast.unparse(st)[:100]), "assignment into %s" % nm, "statement %s:%d" % (M.file, st.lineno))
    R.ok("unreached-statements-searched", "statements never executed", "%d statements" % n)


def statements(fn):
    todo = list(fn.body)
    while todo:
        s = todo.pop()
        yield s
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            todo.extend(x for x in getattr(s, f, []) if isinstance(x, ast.stmt))
        for h in getattr(s, "handlers", []):
            todo.extend(h.body)
        for h in getattr(s, "cases", []):
            todo.extend(h.body)


def own_exprs(st):
    """expressions evaluated by the statement itself (not by the statements it contains)"""
    todo = []
    for f, v in ast.iter_fields(st):
        if f in ("body", "orelse", "finalbody", "handlers", "cases"):
            continue
        todo.extend([v] if isinstance(v, ast.AST) else [x for x in v if isinstance(x, ast.AST)] if isinstance(v, list) else [])
    while todo:
        e = todo.pop()
        yield e
        if not isinstance(e, ast.Lambda):
            todo.extend(ast.iter_child_nodes(e))


def guarded(fn, st, tab):
    """inside `if __name__ == "__main__"` or a context that restores the state"""
    def find(body, g):
        for s in body:
            if s is st:
                return g
            h = g
            if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test):
                h = True
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    e = i.context_expr
                    d = static.dotted(e.func if isinstance(e, ast.Call) else e, tab)
                    if d and lib.canon(d) in SAFE_WITH:
                        h = True
            for f in ("body", "orelse", "finalbody"):
                b = [x for x in getattr(s, f, []) if isinstance(x, ast.stmt)]
                if b and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    r = find(b, h)
                    if r is not None:
                        return r
            for x in list(getattr(s, "handlers", [])) + list(getattr(s, "cases", [])):
                r = find(x.body, h)
                if r is not None:
                    return r
        return None
    return bool(find(fn.body, False))


# ---------------------------------------------------------------------------
NAMES = ("NameError", "UnboundLocalError", "AttributeError", "ImportError", "ModuleNotFoundError")


@check("C24", "Names: every use of a name, every attribute chain that starts at an imported module, every attribute of an object's own class, every call whose target resolves to "
       "a function or class of the package or to a documented external signature, and every local variable on every combination of branch outcomes (loops entered, equal conditions equal). "
       "In addition every context of the catalogue (algorithms, helpers, separators, overrides, commands, loader, invalid requests) is interpreted and must not end in a name, attribute, import or signature error.",
       "definite assignment, scope resolution, member tables and call-signature matching over the whole package, plus abstract interpretation of the catalogue")
def c24(prog, R, tier):
    from .checks5 import invalid
    from .names import Names
    todo = [(c.name, c.run) for c in contexts(prog, tier)] + [(n, f) for n, f in invalid(tier == "thorough")]
    for name, f in todo:
        outs, comp = multi(prog, R, f, name)
        for o in outs:
            if o.cut:
                R.unk("no-name-error", name, o.cut)
            elif o.exc is not None and (o.exc.kind in NAMES or o.exc.kind == "TypeError" and getattr(o.exc, "why", "") == "signature"):
                exc_bad(R, "no-name-error", outs, o, name)
            else:
                R.ok("no-name-error", name)
    N = Names(prog)
    bad = N.run(R.lines)
    for rule, site, msg in bad:
        R.bad(rule, site, msg, "source")
    kinds = {"imported-names": "import", "names": "undefined-name", "module-members": "module-member", "call-signatures": "signature", "own-attributes": "own-attribute",
             "attribute-names": "unknown-attribute", "local-uses": "unbound-local"}
    for k, n in sorted(N.count.items()):
        R.held += n
        R.rules.setdefault(kinds[k], [0, 0, 0])[0] += n
    R.ok("source", "%d modules" % len(N.mods))
    for m, e in prog.errors.items():
        R.bad("syntax", None, "%s does not parse: %s" % (m, e), "source", key=m)
