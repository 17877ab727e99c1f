"""Algebraic identities between what an algorithm returns, its input and the answers of its source model.

The outputs are polynomials over atoms (tv/alg.py); an identity holds when the polynomial of its residual is the zero
polynomial, and is broken when that polynomial is certainly not zero (alg.nonzero).
"""
from fractions import Fraction
from .poly import P
from .vals import *
from .interp import explore, Site
from . import alg, scen
from .scen import S, pub, stft_input, model_obj, source_hook, wpe_hook, mask_hook, tensor
from .checks import check, multi, clean, definite_exc, witness, wtext

alg.install()


def recorded(base):
    """behaviour of an unknown model, keeping what it was asked and what it answered"""
    def hook(I, self, X, *a, **k):
        out = base(I, self, X, *a, **k)
        if isinstance(X, T) and isinstance(out, T):
            l = alg.lin_of(I, X)
            out.lin = alg.opaque(out, ("model", l.canon() if l is not alg.TOP else "?"), (), 1, l is alg.TOP or l.weak())
            I.flags.setdefault("calls", []).append((l, out.lin))
        return out
    return hook


class Res:
    """one path of one call: entries of the result, calls of the model, the object"""

    def __init__(self, o, obj):
        self.o, self.I, self.obj = o, o.I, obj
        self.calls = o.I.flags.get("calls", [])
        v = o.value
        self.l = alg.lin_of(o.I, v) if isinstance(v, T) else alg.TOP

    def row(self, s):
        return self.l.tab[(s, 0, 0)]

    @property
    def n(self):
        return self.l.axes[0]

    @property
    def frames(self):
        return self.l.axes[-1]

    def attr(self, name):
        try:
            t = self.I.getattr(self.obj, name)
        except Exception:
            return None
        l = alg.lin_of(self.I, t) if isinstance(t, T) else alg.TOP
        return None if l is alg.TOP else l


MEMO = {}


def runs(prog, R, cls, C, opts, model="opaque", floors="off", masks=None):
    """paths of one public call on a signal whose entries are unknown; the paths that end with a value"""
    key = (id(prog), cls, C, tuple(sorted(opts.items(), key=str)), model, floors, masks)
    if key in MEMO:
        return MEMO[key]
    ctx = "%s C=%d %s %s%s" % (cls, C, " ".join("%s=%s" % kv for kv in sorted(opts.items())), model, "" if floors == "off" else " floors")
    objs = {}

    def sc(I):
        I.flags["alg"] = True
        I.flags["alg_floors"] = floors
        base = mask_hook(I, *masks) if masks else (wpe_hook() if cls == "WPE" else source_hook())
        I.flags["model_hook"] = recorded(base)
        s = S(I)
        X = stft_input(I, s, 0, C, C128)
        alg.make_input(I, X, "X")
        kw = dict(opts)
        if masks:
            kw["mask_model"] = model_obj(I, "opaque")
        elif model is not None:
            kw["model"] = model_obj(I, model)
        obj = I.call(pub(I, cls), [], kw)
        I.flags["obj"] = obj
        return I.call(obj, [X], {})
    outs, complete = explore(prog, sc, 24)
    R.absorb(outs)
    good = []
    for o in outs:
        if o.cut or o.exc or not complete:
            R.unk("analysed", ctx, o.cut or (o.exc and str(o.exc)) or "paths left")
            continue
        r = Res(o, o.I.flags["obj"])
        if r.l is alg.TOP:
            R.unk("analysed", ctx, "entries of the result are not tracked")
            continue
        good.append(r)
    MEMO[key] = (ctx, good)
    return MEMO[key]


def site_of(r, meth="forward"):
    """the method that computes the result, and the functions of the package on the path"""
    c = r.obj.cls
    for k in c.mro or [c]:
        f = getattr(k, "ns", {}).get(meth)
        n = getattr(f, "node", None)
        if n is not None:
            path = sorted("%s:%s" % x for x in r.I.visited if str(x[0]).startswith("torchiva/") and not x[1].startswith("_"))
            return Site(k.module.replace(".", "/") + ".py", n.lineno, "%s.%s" % (k.name, meth), "result computed through " + ", ".join(p for p in path if p.split(":")[0].endswith(k.module.split(".")[-1] + ".py"))[:300])
    return None


# ------------------------------------------------------------------ pieces of polynomials
def total(ps):
    t = {}
    for p in ps:
        t = alg.add(t, p)
    return t


def dot(a, b):
    return total(alg.mul(x, y) for x, y in zip(a, b))


def coef(p, x):
    """coefficient of an atom of which p is an affine function"""
    r = {}
    for m, c in p.items():
        if dict(m).get(x, 0) == 1:
            r[tuple(t for t in m if t[0] != x)] = c
    return r


def x_atoms(C, name="X"):
    return [alg.IDS[("in", name, (c, 0, 0))] for c in range(C)]


def filters(r, C):
    """coefficients of the input channels in every output, for the part of the output without delay"""
    xs = x_atoms(C)
    return [[coef(r.row(s), x) for x in xs] for s in range(r.n)]


def moment(w, a, b, lab):
    """sum over frames of w a conj(b)"""
    return alg.sum_over(alg.mul(alg.mul(w, a), alg.conj(b)), lab, True)


def solve_of(p):
    """{solve identifier: (A, B)} of the linear solves in a polynomial"""
    out = {}
    for i in alg.atoms_of(p):
        k = alg.ATOMS[i][0]
        if k[0] == "cj":
            i = k[1]
            k = alg.ATOMS[i][0]
        if k[0] == "solve":
            A, B, _ = alg.NAMED[i][1]
            out[k[1]] = (A, B)
    return out


def unload(A):
    """the matrix without the constants on its diagonal"""
    return [[{m: c for m, c in p.items() if m or i != j} for j, p in enumerate(row)] for i, row in enumerate(A)]


def cofactors(M, k):
    """adj(M) e_k: the direction of the solution of M u = e_k"""
    n = len(M)
    rows = [j for j in range(n) if j != k]
    if n == 1:
        return [dict(alg.ONE)]
    return [alg.scale(alg.det([[M[j][d] for d in range(n) if d != e] for j in rows]), (-1) ** (e + k)) for e in range(n)]


def parallel(u, v):
    """residuals that vanish when two vectors have the same direction"""
    n = len(u)
    out = []
    for i in range(n):
        for j in range(i):
            out.append((u, v, i, j))
    return out


def verdicts(res):
    """all zero / some certainly not zero / undecided.  res: functions that give a polynomial"""
    un = False
    for f in res:
        try:
            p = f()
        except (alg.TooBig, alg.Undecided, RecursionError):
            un = True
            continue
        z = alg.is_zero(p)
        if z is False:
            return False
        un = un or z is None
    return None if un else True


def same_direction(u, v):
    n = len(u)
    return verdicts([(lambda i=i, j=j: alg.sub(alg.mul(u[i], v[j]), alg.mul(u[j], v[i]))) for i in range(n) for j in range(i)])


def solves_system(A, B, u):
    """the solution of A z = B has the direction u"""
    A = unload(A)
    try:
        Au = [dot(row, u) for row in A]
    except alg.TooBig:
        return None
    return same_direction(Au, B)


def report(R, rule, ctx, v, msg, site=None, key=None, why="not decided"):
    if v is True:
        R.ok(rule, ctx, msg)
    elif v is False:
        R.bad(rule, site, "does not hold: " + msg, ctx, key=key)
    else:
        R.unk(rule, ctx, why)
    return v


# ------------------------------------------------------------------ C09
def input_root(i):
    """the caller's signal, or a delayed version of it"""
    k = alg.ATOMS[i][0]
    if k[0] == "in":
        return k[1]
    if k[0] in ("sl", "ix"):
        return input_root(k[-1])
    if k[0] == "op" and k[1] in alg.MOVES:
        return "delayed"
    return None


def by_frame(p, lab):
    """{frame-dependent part of the monomials: coefficient}"""
    out = {}
    for m, c in p.items():
        dep = tuple(x for x in m if lab in alg.ATOMS[x[0]][1])
        rest = tuple(x for x in m if lab not in alg.ATOMS[x[0]][1])
        out.setdefault(dep, {})[rest] = c
    return out


def is_linear(p, lab):
    """True: a frame-independent linear combination of input channels and delayed input channels"""
    un = False
    for dep, q in by_frame(p, lab).items():
        if len(dep) == 1 and dep[0][1] == 1:
            i = dep[0][0]
            if input_root(i):
                continue
            if alg.ATOMS[i][0][0] == "catp":
                for part in alg.NAMED[i][1]:
                    v = is_linear(part, lab) if part else True
                    if v is False:
                        return False
                    un = un or v is None
                continue
        if all(alg.sure(i) for i, e in dep) and alg.nonzero(q):
            return False
        un = True
    return None if un else True


FILTERS = [("T_ISS", 2, dict(n_iter=1)), ("T_ISS", 2, dict(n_iter=2, n_taps=1, n_delay=1)), ("T_ISS", 3, dict(n_iter=1, n_src=2, n_taps=1)),
           ("AuxIVA_IP", 2, dict(n_iter=1)), ("AuxIVA_IP", 2, dict(n_iter=2)), ("AuxIVA_IP", 3, dict(n_iter=1)), ("AuxIVA_IP", 2, dict(n_iter=1, n_src=1)),
           ("AuxIVA_IP2", 2, dict(n_iter=1)), ("FIVE", 2, dict(n_iter=1)), ("FIVE", 3, dict(n_iter=1)),
           ("WPE", 2, dict(n_iter=1, n_taps=1, n_delay=1)), ("WPE", 1, dict(n_iter=2, n_taps=2, n_delay=0))]
MORE_FILTERS = [("T_ISS", 3, dict(n_iter=2, n_taps=2, n_delay=1)), ("T_ISS", 4, dict(n_iter=2, n_src=2)), ("T_ISS", 4, dict(n_iter=1)), ("T_ISS", 3, dict(n_iter=3)),
                ("AuxIVA_IP", 3, dict(n_iter=2)), ("AuxIVA_IP", 4, dict(n_iter=1)), ("AuxIVA_IP", 3, dict(n_iter=2, n_src=2)),
                ("AuxIVA_IP2", 2, dict(n_iter=2)), ("FIVE", 4, dict(n_iter=2)), ("WPE", 2, dict(n_iter=2, n_taps=2, n_delay=1)), ("WPE", 3, dict(n_iter=1, n_taps=2, n_delay=2))]
DMC = [(2, dict(n_iter=1)), (2, dict(n_iter=2)), (3, dict(n_iter=1)), (2, dict(n_iter=1, n_taps=1, n_delay=1)), (2, dict(n_iter=2, n_taps=1)),
       (2, dict(n_iter=1, n_src=1)), (3, dict(n_iter=1, n_src=2)), (3, dict(n_iter=1, n_src=1, n_taps=1, n_delay=1)), (2, dict(n_iter=2, n_src=1, n_taps=1)),
       (3, dict(n_iter=1, n_src=2, proj_back_mic=2)), (2, dict(n_iter=1, n_taps=2, n_delay=2)), (2, dict(n_iter=1, proj_back_mic=1)), (2, dict(n_iter=1, eps=1e-2)), (2, dict(n_iter=0, n_taps=1)),
       (1, dict(n_iter=2, n_taps=1, n_delay=1)), (1, dict(n_iter=3, n_taps=2, n_delay=1)), (1, dict(n_iter=2))]
MORE_DMC = [(3, dict(n_iter=2)), (2, dict(n_iter=3)), (4, dict(n_iter=1)), (4, dict(n_iter=1, n_src=2)), (3, dict(n_iter=2, n_src=2)), (3, dict(n_iter=2, n_src=2, n_taps=1)),
            (3, dict(n_iter=1, n_taps=2, n_delay=1)), (3, dict(n_iter=2, n_src=1, n_taps=1)), (4, dict(n_iter=1, n_src=3, n_taps=1, n_delay=2)),
            (4, dict(n_iter=2, n_src=2, proj_back_mic=3)), (2, dict(n_iter=3, n_taps=1)), (2, dict(n_iter=2, n_taps=2))]


def floors_of(l):
    """constants of the floors an expression goes through"""
    out, seen = set(), set()

    def go(p):
        for i in alg.atoms_of(p):
            if i in seen:
                continue
            seen.add(i)
            k = alg.ATOMS[i][0]
            if k[0] == "cj":
                go(alg.var(k[1]))
                continue
            if k[0] == "fn" and k[1] in ("max", "min"):
                for q in alg.NAMED[i][1]:
                    if not alg.atoms_of(q):
                        out.add((k[1], alg.canon(q)))
            if i in alg.SUMS:
                go(alg.SUMS[i][1])
            elif i in alg.SQ:
                go(alg.SQ[i])
            elif k[0] == "solve":
                A, B, _ = alg.NAMED[i][1]
                for q in [x for row in A for x in row] + list(B):
                    go(q)
            elif alg.NAMED.get(i):
                for q in alg.NAMED[i][1]:
                    if isinstance(q, dict):
                        go(q)
    for p in l.tab.values():
        go(p)
    return out


def same_result(a, b):
    if a.l.axes != b.l.axes:
        return None
    return verdicts([(lambda i=i: alg.sub(a.l.tab[i], b.l.tab[i])) for i in a.l.tab])


@check("C09", "The entries of the separated signals are computed as polynomials over the entries of the input, the answers of an unknown source model, sums over frames, square roots and linear solves "
       "(value numbering over an explicit channel and tap axis; frames and frequencies pointwise, their number symbolic). Enumerated: channels 1 to 4, sources, taps, delay, iterations 0 to 3, reference microphone.",
       "polynomial value numbering: memory-efficient and direct mode give the same polynomial; every output is linear in the input with frame-independent coefficients; the projected-back sources of a determined system add up to the reference microphone")
def c09(prog, R, tier):
    deep = tier == "thorough"
    for C, opts in DMC + (MORE_DMC if deep else []):
        ctx = "T_ISS C=%d %s" % (C, " ".join("%s=%s" % kv for kv in opts.items()))
        dmc_verdict(prog, R, C, opts, ctx)
    for cls, C, opts in FILTERS + (MORE_FILTERS if deep else []):
        opts = dict(opts)
        if cls != "WPE":
            opts["proj_back_mic"] = None
        ctx, rs = runs(prog, R, cls, C, opts)
        for r in rs:
            v = verdict_all([is_linear(p, r.frames) for p in r.l.tab.values()])
            report(R, "linear-filter", ctx, v, "every output is a linear combination of input channels with coefficients that do not change from frame to frame", site_of(r), key=cls)
    back(prog, R, deep)


def verdict_all(vs):
    vs = list(vs)
    return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True


def dmc_verdict(prog, R, C, opts, ctx):
    last = None
    for floors in ("on", "off"):
        pair = [runs(prog, R, "T_ISS", C, dict(opts, use_dmc=d), floors=floors)[1] for d in (False, True)]
        if any(len(p) != 1 for p in pair):
            R.unk("memory-efficient-equals-direct", ctx, "not one path each")
            return
        a, b = pair[0][0], pair[1][0]
        v = same_result(a, b)
        if v is True and floors == "off" and last is not None:
            # equal while no floor is active
            fa, fb = last
            v = False if fa != fb else None
        if v is not None:
            break
        last = (floors_of(a.l), floors_of(b.l))
    report(R, "memory-efficient-equals-direct", ctx, v, "the result with use_dmc=True is the result with use_dmc=False", site_of(b), key="T_ISS")


BACK = [("T_ISS", 2, dict(n_iter=1)), ("T_ISS", 2, dict(n_iter=1, n_taps=1)), ("T_ISS", 2, dict(n_iter=2)), ("T_ISS", 2, dict(n_iter=1, n_src=1)), ("T_ISS", 3, dict(n_iter=1, n_src=2)),
        ("AuxIVA_IP", 2, dict(n_iter=1)), ("AuxIVA_IP", 2, dict(n_iter=2)), ("AuxIVA_IP2", 2, dict(n_iter=1)), ("AuxIVA_IP", 3, dict(n_iter=1))]
MORE_BACK = [("T_ISS", 3, dict(n_iter=1)), ("T_ISS", 3, dict(n_iter=1, n_src=1)), ("T_ISS", 3, dict(n_iter=1, n_src=1, n_taps=1)), ("AuxIVA_IP", 3, dict(n_iter=2)), ("AuxIVA_IP2", 2, dict(n_iter=2))]
ONE_REF = [("T_ISS", 4, dict(n_iter=1, n_src=1), 3), ("AuxIVA_IP", 2, dict(n_iter=1, n_src=1, eps=0.0), 0), ("AuxIVA_IP", 2, dict(n_iter=1, n_src=1, eps=0.0), 1), ("AuxIVA_IP", 4, dict(n_iter=1, n_src=1, eps=0.0), 3)]


def back(prog, R, deep):
    for cls, C, opts, refs in [b + (None,) for b in BACK + (MORE_BACK if deep else [])] + ONE_REF:
        for ref in range(C) if refs is None else [refs]:
            ctx, rs = runs(prog, R, cls, C, dict(opts, proj_back_mic=ref))
            _, ns = runs(prog, R, cls, C, dict(opts, proj_back_mic=None))
            if len(rs) != 1 or len(ns) != 1:
                R.unk("projection-back", ctx, "not one path each")
                continue
            v = back_verdict(rs[0], ns[0], C, ref)
            report(R, "projection-back", ctx, v, "each output is its source scaled by the response of the reference microphone (the inverse of the demixing system)", site_of(rs[0]), key=cls)


def by_background(r, A, B, w, C, ref):
    """one source, a background that is not kept: orthogonal to the source, before or after its last update"""
    xs = [alg.var(x) for x in x_atoms(C)]
    S = [[moment(alg.ONE, a, b, r.frames) for b in xs] for a in xs]
    out = []
    for v in ([alg.ONE] + [alg.ZERO] * (C - 1), w):
        n = [dot(v, [S[c][d] for c in range(C)]) for d in range(C)]        # E y conj(x)
        j = [alg.conj(q) for q in n[1:]]                                   # J_b = conj(n_b / n_0)
        j0 = alg.conj(n[0])
        lhs = alg.add(alg.mul(w[0], j0), dot(w[1:], j))
        a = unload(A)[0][0] or alg.ONE
        res = {c: (lambda c=c: alg.sub(alg.mul(a, j0 if c == 0 else j[c - 1]), alg.mul(B[0], lhs))) for c in range(C)}
        got = verdicts([res[ref]])
        if got is None and any(verdicts([res[c]]) is True for c in range(C) if c != ref):
            got = False          # the response of another microphone
        out.append(got)
        if got is True:
            break
    if True not in out and out[0] is False:
        return False
    return True if True in out else None if None in out else False


def back_verdict(r, n, C, ref):
    Wb, W = filters(r, C), filters(n, C)
    S_ = r.n
    zs = []
    for s in range(S_):
        fresh = {k: v for k, v in solve_of(r.row(s)).items() if k not in solve_of(n.row(s))}
        zs.append(fresh)
    if S_ == C and all(not z for z in zs):
        # closed form: the filters add up to the reference channel
        return verdicts([(lambda c=c: alg.sub(total(Wb[s][c] for s in range(S_)), alg.ONE if c == ref else alg.ZERO)) for c in range(C)])
    # a_s is a component of one solve: output = a_s times the output without projection back
    ids = set()
    for s in range(S_):
        found = None
        for i in alg.atoms_of(r.row(s)):
            k = alg.ATOMS[i][0]
            if k[0] == "solve" and k[1] in zs[s] and k[2] == s and alg.mul(alg.var(i), n.row(s)) == r.row(s):
                found = k[1]
        if found is None:
            return None
        ids.add(found)
    if len(ids) != 1:
        return None
    A, B = zs[0][ids.pop()]
    # the system: sum_s a_s [W; J -I]_sc = e_ref
    if S_ == C:
        M = [[W[s][c] for s in range(S_)] for c in range(C)]
        return solves_system(A, B, cofactors(M, ref))
    J = r.attr("J")
    if J is None and S_ == 1:
        return by_background(r, A, B, W[0], C, ref)
    if J is None or tuple(J.axes[::2]) != (C - S_, S_):
        return None
    Jb = [[J.tab[(b, 0, s)] for s in range(S_)] for b in range(C - S_)]
    # eliminate the background: (W1 + W2 J)^T a = e_ref, or the row of J of the reference
    M = [[total([W[s][c]] + [alg.mul(W[s][S_ + b], Jb[b][c]) for b in range(C - S_)]) for s in range(S_)] for c in range(S_)]
    if ref < S_:
        u = cofactors(M, ref)
    else:
        cs = [cofactors(M, c) for c in range(S_)]
        u = [total(alg.mul(cs[c][s], Jb[ref - S_][c]) for c in range(S_)) for s in range(S_)]
    if S_ == 1:
        # a scalar: compare the values; a normalised equation is 1 plus the load
        a = unload(A)[0][0] or alg.ONE
        return verdicts([lambda: alg.sub(alg.mul(a, alg.ONE if ref < S_ else Jb[ref - S_][0]), alg.mul(B[0], M[0][0]))])
    return solves_system(A, B, u)

