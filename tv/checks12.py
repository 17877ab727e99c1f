"""Formulas of the built-in source models and of the rescaling helpers, entry by entry."""
import ast
from fractions import Fraction
from .poly import P
from .vals import *
from .interp import explore, Site
from . import alg, scen
from .scen import S, pub, tensor, model_obj, source_hook
from .checks import check
from .checks8 import verdicts, total, report, moment, recorded
from .checks9 import guarded


def explored(prog, R, ctx, sc):
    def scenario(I):
        I.flags["alg"] = True
        I.flags["alg_floors"] = "off"
        return sc(I)
    outs, complete = explore(prog, scenario, 24)
    R.absorb(outs)
    for o in outs:
        if o.cut or o.exc or not complete:
            R.unk("analysed", ctx, o.cut or (o.exc and str(o.exc)) or "paths left")
        elif not isinstance(o.value, T) or alg.lin_of(o.I, o.value) is alg.TOP:
            R.unk("analysed", ctx, "entries of the result are not tracked")
        else:
            yield o, alg.lin_of(o.I, o.value)


def place(prog, mod, name, meth=None):
    """definition of a function or of a method of a class"""
    path = mod.replace(".", "/") + ".py"
    tree = prog.trees.get(mod)
    for n in ast.walk(tree) if tree is not None else ():
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name:
            if meth and isinstance(n, ast.ClassDef):
                n = next((m for m in n.body if isinstance(m, ast.FunctionDef) and m.name == meth), n)
            return Site(path, n.lineno, name + ("." + meth if meth else ""), "result of " + name)
    return Site(path, 1, name, "result of " + name)


def signal(I, s, name, nb, nsrc=None, dtype=C128):
    ds = [(s.size("B%d" % k, 1, role="b%d" % k), "b%d" % k) if ("B%d" % k) not in s.v else (s.v["B%d" % k], "b%d" % k) for k in range(nb)]
    if nsrc:
        ds.append((P(nsrc), "src"))
    for k, lo, role in (("F", 2, "freq"), ("N", 4, "frame")):
        if k not in s.v:
            s.size(k, lo, role=role)
        ds.append((s.v[k], role))
    t = tensor(I, name, ds, dtype)
    alg.make_input(I, t, "%s %s %d %s" % (name, dtype, nb, nsrc))
    return t


def square(p):
    return alg.mul(p, alg.conj(p))


# ------------------------------------------------------------------ C31
@check("C31", "The weights of the Laplace, Gauss and NMF models on a signal with unknown entries (real and complex, zero to two batch dimensions), away from their floors; for NMF the update of the factors from an unknown state.",
       "polynomial value numbering: the residual of the formula of the weights, and of the multiplicative updates, is the zero polynomial")
def c31(prog, R, tier):
    for dt in (C128, F64):
        for nb in (0, 1, 2):
            guarded(R, closed, prog, R, "laplace", "LaplaceModel", dt, nb)
            guarded(R, closed, prog, R, "gauss", "GaussModel", dt, nb)
        for nb in (1,):
            for k in (1, 2) + ((3,) if tier == "thorough" else ()):
                guarded(R, nmf, prog, R, dt, nb, k)


def closed(prog, R, kind, cls, dt, nb):
    ctx = "%s %s batch-rank=%d" % (cls, dt, nb)
    st = {}

    def sc(I):
        X = signal(I, S(I), "X", nb, 2, dt)
        st[id(I)] = alg.lin_of(I, X)
        m = model_obj(I, kind)
        return I.call(m, [X], {})
    for o, l in explored(prog, R, ctx, sc):
        x = st[id(o.I)]
        F = x.axes[-2]
        site = place(prog, "torchiva.models.classic", cls, "forward")
        if l.axes != x.axes:
            R.unk("weights", ctx, "weights of another shape")
            continue
        res = []
        for i in alg.indices(x.axes):
            pw = alg.sum_over(square(x.tab[i]), F)
            g = l.tab[i]
            if kind == "laplace":
                # w = 1 / (2 sqrt(sum_f |x|^2)), w > 0
                res.append(lambda g=g, pw=pw: alg.sub(alg.scale(alg.mul(alg.mul(g, g), pw), 4), alg.ONE))
            else:
                res.append(lambda g=g, pw=pw: alg.sub(alg.mul(g, pw), alg.LABELS[F]))
        v = verdicts(res)
        if v is True and kind == "laplace" and not all(alg.isnonneg(p) for p in l.tab.values()):
            v = None
        text = {"laplace": "the weight is one half over the norm of the frame over frequencies", "gauss": "the weight is one over the mean power of the frame over frequencies"}[kind]
        report(R, "weights", ctx, v, text, site, key=cls)


def nmf(prog, R, dt, nb, K):
    ctx = "NMFModel(%d) %s batch-rank=%d" % (K, dt, nb)
    st = {}

    def sc(I):
        s = S(I)
        m = I.call(pub(I, "models.NMFModel"), [K], {})
        I.call(m, [signal(I, s, "X1", nb, None, dt)], {})
        X = signal(I, s, "X2", nb, None, dt)
        x = alg.lin_of(I, X)
        Ts, Vs = I.getattr(m, "T"), I.getattr(m, "V")
        lab = {}
        for t, n in ((Ts, "T0"), (Vs, "V0")):
            alg.touched(I, t)
            ax = alg.axes_of(t)
            d = frozenset(a for a in ax if not isinstance(a, int))
            t.lin = alg.build(ax, lambda i: alg.var(alg.atom(("in", "%s %s %d" % (n, dt, K), i), d, True, True)))
            lab[n] = t.lin
        est = {}
        lead = (0,) * (len(x.axes) - 2)
        R0 = total(alg.mul(lab["T0"].tab[lead + (0, k)], lab["V0"].tab[lead + (0, k)]) for k in range(K))
        for n, p in (("R", R0), ("iR", alg.recip(R0))):
            if n in m.attrs:
                t = m.attrs[n]
                alg.touched(I, t)
                ax = alg.axes_of(t)
                t.lin = alg.build(ax, lambda i: p)
        for n, t in m.attrs.items():
            if isinstance(t, T) and n not in ("T", "V", "R", "iR"):
                return None
        out = I.call(m, [X], {})
        st[id(I)] = (x, lab["T0"], lab["V0"], alg.lin_of(I, I.getattr(m, "T")), alg.lin_of(I, I.getattr(m, "V")), lead, R0)
        return out
    for o, l in explored(prog, R, ctx, sc):
        x, t0, v0, t1, v1, lead, R0 = st[id(o.I)]
        if alg.TOP in (x, t1, v1) or l.axes != x.axes:
            R.unk("weights", ctx, "factors not tracked")
            continue
        F, N = x.axes[-2:]
        site = place(prog, "torchiva.models.classic", "NMFModel", "forward")
        pw = square(x.tab[lead + (0, 0)])
        at = lambda t, k: t.tab[lead + (0, k)]
        iR0 = alg.recip(R0)
        res = []
        for k in range(K):
            num = alg.sum_over(total([alg.mul(alg.mul(pw, alg.mul(iR0, iR0)), at(v0, k))]), N)
            den = alg.sum_over(alg.mul(iR0, at(v0, k)), N)
            res.append(lambda num=num, den=den, k=k: alg.sub(alg.mul(square(at(t1, k)), den), alg.mul(square(at(t0, k)), num)))
        vt = verdicts(res)
        report(R, "factor-update", ctx, vt, "the basis is multiplied by the square root of the ratio of the two parts of the gradient of the Itakura-Saito divergence", site, key="NMFModel T")
        R1 = total(alg.mul(at(t1, k), at(v0, k)) for k in range(K))
        iR1 = alg.recip(R1)
        res = []
        for k in range(K):
            num = alg.sum_over(alg.mul(alg.mul(pw, alg.mul(iR1, iR1)), at(t1, k)), F)
            den = alg.sum_over(alg.mul(iR1, at(t1, k)), F)
            res.append(lambda num=num, den=den, k=k: alg.sub(alg.mul(square(at(v1, k)), den), alg.mul(square(at(v0, k)), num)))
        report(R, "factor-update", ctx, verdicts(res), "the activations are multiplied by the square root of the same ratio, at the updated basis", site, key="NMFModel V")
        R2 = total(alg.mul(at(t1, k), at(v1, k)) for k in range(K))
        report(R, "weights", ctx, verdicts([lambda: alg.sub(alg.mul(l.tab[lead + (0, 0)], R2), alg.ONE)]), "the weight is one over the product of the updated factors", site, key="NMFModel")


# ------------------------------------------------------------------ C25: exact rules
def rescaling_exact(prog, R, tier):
    for nb in (0, 1):
        for fname, kw in (("minimum_distortion", {}), ("minimum_distortion", dict(p=2.0)), ("scaling.minimum_distortion_l2", {}), ("minimum_distortion_l2_phase", {}),
                          ("minimum_distortion", dict(p=1.0, max_iter=1)), ("minimum_distortion", dict(p=0.5, max_iter=1)), ("minimum_distortion", dict(p=0.5, q=0.5, max_iter=1)), ("minimum_distortion", dict(p=1.0, max_iter=2)),
                          ("minimum_distortion", dict(model="opaque", max_iter=1)), ("minimum_distortion", dict(model="opaque", max_iter=2))):
            guarded(R, rescale, prog, R, fname, kw, nb)


def rescale(prog, R, fname, kw, nb):
    ctx = "%s(%s) entries batch-rank=%d" % (fname, kw, nb)
    st = {}

    def sc(I):
        s = S(I)
        Y, ref = signal(I, s, "Y", nb, 2), signal(I, s, "ref", nb)
        st[id(I)] = alg.lin_of(I, Y), alg.lin_of(I, ref)
        k = dict(kw)
        if k.get("model"):
            I.flags["model_hook"] = recorded(source_hook())
            k["model"] = model_obj(I, k["model"])
        return I.call(pub(I, fname), [Y, ref], k)
    for o, l in explored(prog, R, ctx, sc):
        y, ref = st[id(o.I)]
        if l.axes != y.axes:
            R.unk("least-squares", ctx, "result of another shape")
            continue
        N = y.axes[-1]
        lead = (0,) * (len(y.axes) - 3)
        b = ref.tab[lead + (0, 0)]
        name = fname.split(".")[-1]
        site = place(prog, "torchiva.scaling", name)
        calls = o.I.flags.get("calls", [])
        res = []
        for s_ in range(2):
            a, g = y.tab[lead + (s_, 0, 0)], l.tab[lead + (s_, 0, 0)]
            if name == "minimum_distortion_l2_phase":
                # g = u a, |u| = 1, u sum ref* a >= 0
                u = alg.mul(g, alg.recip(a))
                c = alg.sum_over(alg.mul(b, alg.conj(a)), N)
                res.append(lambda u=u: alg.sub(square(u), alg.ONE))
                # u sum ref* a is real, and not negative
                if alg.isnonneg(alg.mul(u, alg.conj(c))):
                    continue
                res.append(lambda u=u, c=c: alg.sub(alg.mul(u, alg.conj(c)), alg.mul(c, alg.conj(u))))
                res.append(lambda: alg.var(alg.atom(("undecided sign",), weak=True)))
                continue
            if kw.get("model") or kw.get("p", 2.0) < 2.0:
                it = kw["max_iter"]
                # weights of the error of the iterate before
                if kw.get("model"):
                    if len(calls) != it:
                        res.append(None)
                        break
                w, c = None, alg.ONE
                if True:
                    for k in range(it):
                        e = alg.sub(b, alg.mul(c, a))
                        if kw.get("model"):
                            res.append(lambda e=e, k=k, s_=s_: alg.sub(calls[k][0].tab[lead + (s_, 0, 0)], e))
                            w = calls[k][1].tab[lead + (s_, 0, 0)]
                        else:
                            w = alg.recip(alg.pw(alg.absolute(e), alg.const(Fraction(2) - Fraction(kw["p"]))))
                        num = alg.sum_over(alg.mul(alg.mul(b, alg.conj(a)), w), N)
                        c = alg.mul(num, alg.recip(alg.sum_over(alg.mul(square(a), w), N)))
            else:
                w = alg.ONE
            k = alg.mul(g, alg.recip(a))
            # k sum w |a|^2 = sum w ref a*
            res.append(lambda a=a, k=k, w=w: alg.sub(alg.mul(k, alg.sum_over(alg.mul(w, square(a)), N)), alg.sum_over(alg.mul(w, alg.mul(b, alg.conj(a))), N)))
        v = None if None in res else verdicts(res)
        rule, text = ("phase-only", "the factor has modulus one and makes the signal in phase with the reference") if name == "minimum_distortion_l2_phase" else \
            ("least-squares", "the factor of every source and frequency minimises the (weighted) squared distance to the reference")
        report(R, rule, ctx, v, text, site, key="%s %s" % (name, sorted(kw)))
