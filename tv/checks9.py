"""Defining equations of the updates, as algebraic identities between the result, the input and the answers of the source model."""
import os

from .poly import P
from .vals import *
from . import alg
from .checks import check
from .checks8 import (runs, report, site_of, moment, verdicts, verdict_all, solves_system, cofactors, solve_of, filters, x_atoms, total, dot)


def some(vs):
    """one of several alternatives holds"""
    vs = list(vs)
    return True if any(v is True for v in vs) else None if any(v is None for v in vs) or not vs else False


def ent(l, i):
    """entry of a tensor whose axes may include kept axes of size one"""
    t = l.tab.get(i)
    if t is not None:
        return t
    n = len(i)
    for k, v in l.tab.items():
        if len(k) <= n and all(x == 0 or x == y for x, y in zip(k, i[n - len(k):])):
            return v
    return None


def weight(r, s):
    return ent(r.calls[-1][1], (s, 0, 0))


def uncorrelated(r, w, a, b):
    return verdicts([lambda: moment(w, a, b, r.frames)])


def delayed(r):
    """delayed input channels in the result"""
    out = set()
    for p in r.l.tab.values():
        for i in alg.atoms_of(p):
            if alg.frame_level(i) and alg.ATOMS[i][0][0] not in ("in", "model") and not (alg.ATOMS[i][0][0] == "cj"):
                out.add(i)
    return sorted(out)


def unit_energy(r, k, norm=True):
    """weighted energy of a source with unit power before the update: the number of frames, or one"""
    Y0 = ent(r.calls[-1][0], (k, 0, 0))
    y = r.row(k)
    e = moment(weight(r, k), y, y, r.frames)
    lf = r.l.axes[1]
    g = alg.sum_over(alg.sum_over(alg.mul(Y0, alg.conj(Y0)), r.frames, True), lf, True) if norm else None
    out = []
    N, F = alg.LABELS[r.frames], alg.LABELS[lf]
    for target in (alg.ONE, N):
        e2 = alg.mul(e, g) if norm else e
        t2 = alg.mul(target, alg.mul(N, F)) if norm else target
        v = verdicts([lambda: alg.sub(e2, t2)])
        if v is None:
            # both are real: up to a sign
            v = verdicts([lambda: alg.sub(alg.mul(e2, e2), alg.mul(t2, t2))])
        out.append(v)
    return some(out)


ISS = [(2, dict(n_iter=1)), (3, dict(n_iter=1)), (1, dict(n_iter=1)), (1, dict(n_iter=2))]
ISS_TAPS = [(2, dict(n_iter=1, n_taps=1, n_delay=1)), (2, dict(n_iter=1, n_taps=2, n_delay=1)), (1, dict(n_iter=2, n_taps=1)), (3, dict(n_iter=1, n_src=2, n_taps=1))]
OVER = [(2, dict(n_iter=1, n_src=1)), (3, dict(n_iter=1, n_src=2)), (3, dict(n_iter=1, n_src=1)), (2, dict(n_iter=2, n_src=1))]
OVER_J = [(2, dict(n_iter=1, n_src=1)), (3, dict(n_iter=1, n_src=2)), (3, dict(n_iter=1, n_src=1)), (2, dict(n_iter=2, n_src=1)), (2, dict(n_iter=2, n_src=1, n_taps=1)), (2, dict(n_iter=2, n_src=1, n_taps=2, n_delay=1))]
IP = [(2, dict(n_iter=1)), (3, dict(n_iter=1)), (1, dict(n_iter=2))]
WPES = [(2, dict(n_iter=1, n_taps=1, n_delay=1), "opaque"), (1, dict(n_iter=1, n_taps=2, n_delay=0), "opaque"), (1, dict(n_iter=2, n_taps=1, n_delay=1), "opaque"),
        (2, dict(n_iter=1, n_taps=1, n_delay=0), None), (1, dict(n_iter=1, n_taps=2, n_delay=1), None)]
OVERIP = [(2, dict(n_iter=1, n_src=1)), (3, dict(n_iter=1, n_src=1))]
FIVES = [(2, dict(n_iter=1)), (3, dict(n_iter=1)), (2, dict(n_iter=2)), (4, dict(n_iter=1))]
OVERIP_TWO = [(3, dict(n_iter=1, n_src=2))]
MORE_OVERIP = [(4, dict(n_iter=1, n_src=1))]
MORE_FIVE = [(3, dict(n_iter=2)), (2, dict(n_iter=3)), (5, dict(n_iter=1))]
MORE_ISS = [(4, dict(n_iter=1))]
MORE_TAPS = [(3, dict(n_iter=1, n_taps=2)), (2, dict(n_iter=2, n_taps=1, n_delay=2))]
MORE_IP = [(4, dict(n_iter=1))]
MORE_WPE = [(2, dict(n_iter=1, n_taps=2, n_delay=1), "opaque"), (3, dict(n_iter=1, n_taps=1, n_delay=1), "opaque")]


def guarded(R, f, *a):
    """a result of another shape than expected is not decided"""
    try:
        f(*a)
    except (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, AttributeError, RecursionError, alg.TooBig, alg.Undecided) as e:
        if os.environ.get("TV_DEBUG"):
            raise
        R.unk("analysed", " ".join(str(x) for x in a[2:]), "%s: %s" % (type(e).__name__, e))


@check("C30", "The entries of the separated signals are computed as polynomials over the entries of the input, the answers of an unknown source model, sums over frames, roots, linear solves and eigen-decompositions, "
       "on the paths where no floor or clamp is active. Enumerated: channels 1 to 4, sources, taps, delay, iterations, reference microphone.",
       "polynomial value numbering: the residual of the defining equations of the last update (weighted orthogonality, unit weighted energy, background orthogonality, normal equations, eigenvector equations) is the zero polynomial")
def c30(prog, R, tier):
    deep = tier == "thorough"
    for C, opts in ISS + (MORE_ISS if deep else []):
        guarded(R, steering, prog, R, C, opts)
    for C, opts in ISS_TAPS + (MORE_TAPS if deep else []):
        guarded(R, taps, prog, R, C, opts)
    for C, opts in OVER:
        guarded(R, over, prog, R, C, opts)
    for C, opts in OVER_J:
        guarded(R, background, prog, R, C, opts)
    for C, opts in IP + (MORE_IP if deep else []):
        guarded(R, ip, prog, R, C, opts)
    for C, opts in OVERIP + (MORE_OVERIP if deep else []):
        guarded(R, over_ip, prog, R, C, opts)
    for C, opts in OVERIP_TWO:
        guarded(R, over_ip_two, prog, R, C, opts)
    guarded(R, ip2, prog, R)
    for C, opts in FIVES + (MORE_FIVE if deep else []):
        guarded(R, five, prog, R, C, opts)
    for C, opts, model in WPES + (MORE_WPE if deep else []):
        guarded(R, wpe, prog, R, C, opts, model)


def steering(prog, R, C, opts):
    for dmc in (False, True):
        ctx, rs = runs(prog, R, "T_ISS", C, dict(opts, proj_back_mic=None, use_dmc=dmc))
        for r in rs:
            n = r.n
            per = {k: verdict_all([True] + [uncorrelated(r, weight(r, j), r.row(j), r.row(k)) for j in range(n) if j != k]) for k in range(n)}
            if n > 1:
                report(R, "steering", ctx, some(per.values()), "after the update, there is a source with which every other source is uncorrelated under the weights of that other source", site_of(r), key="T_ISS")
            ks = [k for k in range(n) if per[k] is True]
            if ks:
                report(R, "unit-energy", ctx, some(unit_energy(r, k) for k in ks), "the source steered last has unit weighted energy, for weights computed on sources of unit power", site_of(r), key="T_ISS")


def taps(prog, R, C, opts):
    ctx, rs = runs(prog, R, "T_ISS", C, dict(opts, proj_back_mic=None))
    for r in rs:
        n = r.n
        per = [verdict_all([uncorrelated(r, weight(r, j), r.row(j), alg.var(b)) for j in range(n)]) for b in delayed(r)]
        report(R, "dereverberation-step", ctx, some(per), "after the update, there is a delayed input channel with which every source is uncorrelated under its own weights", site_of(r), key="T_ISS")


def background_signal(r, C):
    """background signals: J applied to the first channels minus the remaining ones"""
    J = r.attr("J")
    n = r.n
    if J is None or len(J.axes) != 3 or J.axes[0] != C - n or J.axes[2] != n:
        return None
    xs = [alg.var(x) for x in x_atoms(C)]
    return [alg.sub(dot([J.tab[(b, 0, s)] for s in range(n)], xs[:n]), xs[n + b]) for b in range(C - n)]


def over(prog, R, C, opts):
    ctx, rs = runs(prog, R, "T_ISS", C, dict(opts, proj_back_mic=None))
    for r in rs:
        Z = background_signal(r, C)
        if Z is None:
            R.unk("background-step", ctx, "no background matrix found")
            continue
        per = [verdict_all([uncorrelated(r, weight(r, s), r.row(s), z) for s in range(r.n)]) for z in Z]
        report(R, "background-step", ctx, some(per), "after the update, there is a background signal with which every source is uncorrelated under its own weights", site_of(r), key="T_ISS")


def background(prog, R, C, opts):
    """the background matrix of the last iteration makes the background orthogonal to the sources that the iteration started with"""
    ctx, rs = runs(prog, R, "T_ISS", C, dict(opts, proj_back_mic=None))
    for r in rs:
        n = r.n
        J = r.attr("J")
        if J is None or J.axes[0] != C - n or len(J.axes) != 3 or J.axes[2] != n:
            R.unk("background-orthogonality", ctx, "no background matrix found")
            continue
        Y = [ent(r.calls[-1][0], (s, 0, 0)) for s in range(n)]
        xs = [alg.var(x) for x in x_atoms(C)]
        N = [[moment(alg.ONE, Y[s], x, r.frames) for x in xs] for s in range(n)]
        M = [row[:n] for row in N]
        vs = []
        for b in range(C - n):
            ids = set()
            ok = True
            for s in range(n):
                q = J.tab[(b, 0, s)]
                sol = solve_of(q)
                if len(q) == 1 and len(sol) == 1:
                    ids |= set(sol)
                else:
                    ok = False
            if not ok or len(ids) != 1:
                # J is given by a closed form: sum_n Y conj(Z) = 0
                z = [alg.sub(dot([alg.conj(J.tab[(b, 0, s)]) for s in range(n)], M[t]), N[t][n + b]) for t in range(n)]
                vs.append(verdicts([(lambda q=q: q) for q in z]))
                continue
            A, B = solve_of(J.tab[(b, 0, 0)])[ids.pop()]
            plain = {i for s in range(n) for i in alg.atoms_of(J.tab[(b, 0, s)]) if alg.ATOMS[i][0][0] == "solve"}
            if plain:
                # the row is the solution and not its conjugate
                A, B = [[alg.conj(q) for q in row] for row in A], [alg.conj(q) for q in B]
            # M z = r : z = adj(M) r / det M
            rhs = [N[t][n + b] for t in range(n)]
            cs = [cofactors(M, t) for t in range(n)]
            if n == 1:
                v = verdicts([lambda: alg.sub(alg.mul(unload1(A), rhs[0]), alg.mul(B[0], M[0][0]))])
            else:
                u = [total(alg.mul(cs[t][s], rhs[t]) for t in range(n)) for s in range(n)]
                v = solves_system(A, B, u)
            vs.append(v)
        report(R, "background-orthogonality", ctx, verdict_all(vs), "the background signals are orthogonal to the sources at the start of the iteration, up to the load of the solve", site_of(r), key="T_ISS")


def unload1(A):
    q = {m: c for m, c in A[0][0].items() if m}
    return q or dict(alg.ONE)


def ip(prog, R, C, opts):
    ctx, rs = runs(prog, R, "AuxIVA_IP", C, dict(opts, proj_back_mic=None, eps=0.0))
    for r in rs:
        n = r.n
        xs = [alg.var(x) for x in x_atoms(C)]
        per = {}
        for k in range(n):
            if C == 2:
                per[k] = verdict_all([uncorrelated(r, weight(r, k), r.row(j), r.row(k)) for j in range(n) if j != k])
            else:
                sol = solve_of(r.row(k))
                prev = set()
                for p in [x for l, _ in r.calls for x in l.tab.values()] if len(r.calls) > 1 else []:
                    prev |= set(solve_of(p))
                own = {i: v for i, v in sol.items() if i not in prev and not any(i in solve_of(r.row(j)) for j in range(n) if j != k)}
                if len(own) != 1:
                    per[k] = None
                    continue
                A, B = list(own.values())[0]
                W = filters(r, C)
                V = [[moment(weight(r, k), a, b, r.frames) for b in xs] for a in xs]
                M = [[dot(W[j], [V[c][d] for c in range(C)]) for d in range(C)] for j in range(n)]
                per[k] = solves_system(A, B, cofactors(M, k))
        if n > 1:
            report(R, "iterative-projection", ctx, some(per.values()), "after the update, there is a source whose filter is orthogonal to the others under its weighted covariance", site_of(r), key="AuxIVA_IP")
        for k in range(n):
            report(R, "unit-energy", ctx + " source %d" % k, unit_energy(r, k), "the source has unit weighted energy, for weights computed on sources of unit power", site_of(r), key="AuxIVA_IP")


def ip2(prog, R):
    for opts in (dict(n_iter=1), ):
        ctx, rs = runs(prog, R, "AuxIVA_IP2", 2, dict(opts, proj_back_mic=None, eps=0.0))
        for r in rs:
            for k in (0, 1):
                v = uncorrelated(r, weight(r, k), r.row(0), r.row(1))
                report(R, "unit-energy", ctx + " source %d" % k, unit_energy(r, k), "the source has unit weighted energy, for weights computed on sources of unit power", site_of(r), key="AuxIVA_IP2")
                report(R, "pairwise-projection", ctx + " weights %d" % k, v, "the two sources are uncorrelated under the weights of each of them", site_of(r), key="AuxIVA_IP2")


def wpe(prog, R, C, opts, model):
    ctx, rs = runs(prog, R, "WPE", C, dict(opts, eps=0.0), model=model)
    for r in rs:
        if model:
            w = ent(r.calls[-1][1], (0, 0))
        elif opts["n_iter"] == 1:
            # inverse of the power of the input, up to a factor common to the frames
            w = alg.recip(total(alg.mul(alg.var(x), alg.conj(alg.var(x))) for x in x_atoms(C)))
        bs = delayed(r)
        if len(bs) != C * opts["n_taps"]:
            R.unk("prediction", ctx, "delayed channels not found")
            continue
        v = verdict_all([uncorrelated(r, w, r.row(s), alg.var(b)) for s in range(r.n) for b in bs])
        report(R, "prediction", ctx, v, "the dereverberated signal is uncorrelated with every delayed channel under the weights (normal equations of the prediction filter)", site_of(r), key="WPE")


def over_ip(prog, R, C, opts):
    """one source, several channels: the filter is orthogonal to the background under the weighted covariance"""
    ctx, rs = runs(prog, R, "AuxIVA_IP", C, dict(opts, proj_back_mic=None, eps=0.0))
    for r in rs:
        xs = [alg.var(x) for x in x_atoms(C)]
        w = weight(r, 0)
        S = [[moment(alg.ONE, a, b, r.frames) for b in xs] for a in xs]
        V = [[moment(w, a, b, r.frames) for b in xs] for a in xs]
        # background: x_0 C_b0 / C_00 - x_b; rows times C_00
        M = [[alg.ZERO] * C]
        for b in range(1, C):
            M.append([alg.sub(alg.mul(S[b][0], V[0][d]), alg.mul(S[0][0], V[b][d])) for d in range(C)])
        own = solve_of(r.row(0))
        v = some(solves_system(A, B, cofactors(M, 0)) for A, B in own.values() if len(A) == C) if own else None
        report(R, "iterative-projection", ctx, v, "the filter of the source is orthogonal to the background under its weighted covariance", site_of(r), key="AuxIVA_IP")
        report(R, "unit-energy", ctx, unit_energy(r, 0), "the source has unit weighted energy, for weights computed on a source of unit power", site_of(r), key="AuxIVA_IP")


def over_ip_two(prog, R, C, opts):
    """two sources: the filter updated last, against the other one and the background of the filters at that moment"""
    ctx, rs = runs(prog, R, "AuxIVA_IP", C, dict(opts, proj_back_mic=None, eps=0.0))
    text = "the filter updated last is orthogonal, under its weighted covariance, to the other filter and to a background that is orthogonal to the sources"
    for r in rs:
        n = r.n
        xs = [alg.var(x) for x in x_atoms(C)]
        S = [[moment(alg.ONE, a, b, r.frames) for b in xs] for a in xs]
        W = filters(r, C)
        vs = []
        for k in range(n):
            own = {i: v for i, v in solve_of(r.row(k)).items() if len(v[0]) == C}
            others = {i for j in range(n) if j != k for i in solve_of(r.row(j))}
            for ident, (A, B) in own.items():
                if ident in others:
                    continue
                inner = {}
                for i in deep_all([q for row in A for q in row] + list(B)):
                    kk = alg.ATOMS[i][0]
                    if kk[0] == "solve":
                        inner.setdefault(kk[1], alg.NAMED[i][1][:2])
                if not others <= set(inner):
                    continue
                V = [[moment(weight(r, k), a, b, r.frames) for b in xs] for a in xs]
                for jd, (AJ, BJ) in inner.items():
                    if jd in others or len(AJ) != n:
                        continue
                    z = [alg.IDS.get(("solve", jd, s)) for s in range(n)]
                    if None in z:
                        continue
                    b = [alg.conj(alg.var(i)) for i in z] + [alg.scale(alg.ONE, -1)]
                    rows = [W[j] if j != k else None for j in range(n)] + [b]
                    M = [[dot(row, [V[c][d] for c in range(C)]) if row else alg.ZERO for d in range(C)] for row in rows]
                    v1 = solves_system(A, B, cofactors(M, k))
                    start = [[alg.ONE if c == j else alg.ZERO for c in range(C)] for j in range(n)]
                    now = [W[j] if j != k else start[j] for j in range(n)]
                    v2 = background_of(now, S, AJ, BJ, n)
                    if v2 is None and v1 is True and background_of(start, S, AJ, BJ, n) is True:
                        v2 = False        # of the filters before the update of the other source
                    vs.append(verdict_all([v1, v2]))
        report(R, "iterative-projection", ctx, some(vs) if vs else None, text, site_of(r), key="AuxIVA_IP")


def background_of(W, S, A, B, n):
    """A z = B has the solution for which (z^H, -1) S is orthogonal to the filters"""
    N = [[dot(w, [S[c][d] for c in range(len(S))]) for d in range(len(S))] for w in W]
    M = [row[:n] for row in N]
    rhs = [row[n] for row in N]
    cs = [cofactors(M, t) for t in range(n)]
    return solves_system(A, B, [total(alg.mul(cs[t][s], rhs[t]) for t in range(n)) for s in range(n)])


def deep_all(ps, seen=None):
    """the same, also of the systems of the linear solves"""
    seen = set() if seen is None else seen
    for p in ps:
        for i in alg.atoms_of(p):
            k = alg.ATOMS[i][0]
            if k[0] == "cj":
                i = k[1]
                k = alg.ATOMS[i][0]
            if i in seen:
                continue
            seen.add(i)
            if i in alg.SUMS:
                deep_all([alg.SUMS[i][1]], seen)
            elif i in alg.SQ:
                deep_all([alg.SQ[i]], seen)
            elif k[0] == "poly":
                deep_all([alg.NAMED[i][1][0]], seen)
            elif k[0] == "solve":
                A, B, _ = alg.NAMED[i][1]
                deep_all([q for row in A for q in row] + list(B), seen)
    return seen


def deep(p, seen=None):
    """atoms of a polynomial and of the sums and roots in it"""
    seen = set() if seen is None else seen
    for i in alg.atoms_of(p):
        if i not in seen:
            seen.add(i)
            if i in alg.SUMS:
                deep(alg.SUMS[i][1], seen)
            elif i in alg.SQ:
                deep(alg.SQ[i], seen)
            elif alg.ATOMS[i][0][0] == "poly":
                deep(alg.NAMED[i][1][0], seen)
    return seen


def eigen_atoms(p, inside=False):
    """{operand: {atom: (0 for values or 1 for vectors, index)}}"""
    out = {}
    for i in deep(p) if inside else alg.atoms_of(p):
        k = alg.ATOMS[i][0]
        if k[0] == "cj":
            k = alg.ATOMS[k[1]][0]
        if k[0] == "op" and k[1] in alg.EIGEN and len(k) == 5 and isinstance(k[2], tuple) and k[2][0][0] == "L":
            out.setdefault(k[2][0][1], {})[i] = (k[3], k[4])
    return out


def slot_parts(p):
    """the part of an output whose first frequency was replaced"""
    ids = list(alg.atoms_of(p))
    if len(p) == 1 and len(ids) == 1 and alg.ATOMS[ids[0]][0][0] == "catp":
        parts = [q for q in alg.NAMED[ids[0]][1] if q]
        return parts[0] if len(parts) == 1 else None
    return p


def five(prog, R, C, opts):
    got = {}
    for pb in [None] + list(range(C if opts["n_iter"] == 1 else 0)):
        ctx, rs = runs(prog, R, "FIVE", C, dict(opts, proj_back_mic=pb, eps=0.0))
        for r in rs:
            q = slot_parts(r.row(0))
            if q is None:
                R.unk("extraction", ctx, "structure of the output not recognised")
                continue
            ops = eigen_atoms(q)
            # the operand that mentions the answer the model gave last
            answer = alg.atoms_of(ent(r.calls[-1][1], (0, 0)))
            last = [m for m in ops if m in alg.REV and any(deep(x) & answer for x in alg.REV[m].tab.values())]
            if len(last) != 1:
                R.unk("extraction", ctx, "structure of the output not recognised")
                continue
            parts = {(idx[1:], alg.ATOMS[i][0][0] == "cj"): i for i, (kind, idx) in ops[last[0]].items() if kind == 1}
            cj = any(c for _, c in parts)
            vec = {idx[0]: (i, idx[1]) for (idx, c), i in parts.items() if c == cj}
            if pb is None and len(parts) == C and len(vec) == 1 and all(c == cj for _, c in parts) and by_degree(q, parts.values()):
                report(R, "extraction", ctx, False, "the filter is one eigenvector", site_of(r), key="FIVE")
                continue
            if sorted(vec) != list(range(C)):
                R.unk("extraction", ctx, "structure of the output not recognised")
                continue
            if pb is None:
                Z = [coef(q, vec[c][0]) for c in range(C)]
                V = {i: (x if cj else alg.conj(x)) for i, x in alg.REV[last[0]].tab.items()}
                w = ent(r.calls[-1][1], (0, 0))
                U = {(c, d): moment(w, Z[c], Z[d], r.frames) for c in range(C) for d in range(C)}
                v = verdicts([(lambda c=c, d=d: alg.sub(alg.mul(V[0, c, d], U[0, 0]), alg.mul(V[0, 0, 0], U[c, d]))) for c in range(C) for d in range(C) if c or d])
                report(R, "extraction", ctx, v, "the filter is an eigenvector of the weighted covariance of the whitened signals it is applied to", site_of(r), key="FIVE")
                if v is True:
                    report(R, "extraction", ctx, len({c for _, c in vec.values()}) == 1 and vec[0][1] == 0, "the filter is the eigenvector of the smallest eigenvalue", site_of(r), key="FIVE")
                got[(C, opts["n_iter"])] = (Z, white(R, ctx, r, C, Z))
            elif (C, opts["n_iter"]) in got:
                Z, (num, den) = got[(C, opts["n_iter"])]
                scale = alg.ZERO
                for c in range(C):
                    lam, ref = pair_of(Z[c], C, pb)
                    if lam is None:
                        scale = None
                        break
                    # square root of the eigenvalue times the component of its eigenvector
                    scale = alg.add(scale, alg.mul(alg.mul(lam, ref), alg.conj(alg.var(vec[c][0]))))
                v = None
                if scale is not None and num is not None:
                    y = total(alg.mul(alg.var(vec[c][0]), Z[c]) for c in range(C))
                    if num == den:
                        num = den = alg.ONE
                    v = verdicts([lambda: alg.sub(alg.mul(q, num), alg.mul(alg.mul(scale, y), den))])
                    if v is None and eigen_nonzero(alg.sub(alg.mul(q, num), alg.mul(alg.mul(scale, y), den)), set(parts.values())):
                        v = False
                report(R, "extraction-scale", ctx, v, "the output is the source scaled by its response at the reference microphone", site_of(r), key="FIVE")


def by_degree(p, atoms, degree=1):
    """every monomial has the same degree in the atoms"""
    atoms = set(atoms)
    return all(sum(e for i, e in m if i in atoms) == degree for m in p)


def group(p, pick):
    out = {}
    for m, c in p.items():
        out.setdefault(tuple(x for x in m if pick(x[0])), {})[tuple(x for x in m if not pick(x[0]))] = c
    return out


def eigen_nonzero(p, vectors):
    """certainly not zero: eigenvalues and eigenvectors of a generic matrix are independent of each other, and a bilinear form of an
    arbitrary unit vector and its conjugate vanishes only with its coefficients"""
    vectors = set(vectors)

    def value(i):
        if i in alg.SQ:
            return len(alg.SQ[i]) == 1 and all(value(j) for m in alg.SQ[i] for j, e in m)
        k = alg.ATOMS[i][0]
        return k[0] == "op" and k[1] in alg.EIGEN and k[3] == 0
    # the phase of an eigenvector is arbitrary, its norm is one
    phases = {}
    for m, c in p.items():
        up = sum(e for i, e in m if i in vectors and alg.ATOMS[i][0][0] != "cj")
        down = sum(e for i, e in m if i in vectors and alg.ATOMS[i][0][0] == "cj")
        phases.setdefault(up - down, {}).setdefault(up, {})[m] = c
    return any(len(d) == 1 and homogeneous(next(iter(d.values())), vectors, value) for d in phases.values())


def homogeneous(p, vectors, value):
    for q in group(p, lambda i: alg.frame_level(i)).values():
        for q2 in group(q, lambda i: i in vectors).values():
            q3 = alg.unroot(q2) or q2
            for q4 in group(q3, value).values():
                if len(q4) == 1:
                    (m, c), = q4.items()
                    if all(alg.sure(i) or value(i) for i, e in m):
                        return True
    return False


def coef(p, x):
    from .checks8 import coef as f
    return f(p, x)


def sliced(w, r, Z):
    return w


def inputs_of(z):
    """{channel: coefficient} of a linear form in the input channels"""
    out = {}
    for i in alg.atoms_of(z):
        k = alg.ATOMS[i][0]
        while k[0] in ("sl", "ix"):
            k = alg.ATOMS[k[-1]][0]
        if k[0] == "in":
            out[k[2][0]] = coef(z, i)
    return out


def pair_of(z, C, ref):
    """eigenvalue, and the conjugate of the coefficient of the reference channel, of one whitened signal"""
    co = inputs_of(z)
    lams = {i for q in co.values() for m, ops in eigen_atoms(q).items() for i, (kind, _) in ops.items() if kind == 0}
    if len(lams) != 1 or ref not in co:
        return None, None
    return alg.var(lams.pop()), alg.conj(co[ref])


def white(R, ctx, r, C, Z):
    """rows of the whitening matrix: conjugate of an eigenvector of the covariance over the square root of its eigenvalue"""
    vs, cols = [], []
    num = den = None
    for c in range(C):
        co = inputs_of(Z[c])
        ms = {m for q in co.values() for m in eigen_atoms(q)}
        if len(ms) != 1 or sorted(co) != list(range(C)):
            vs.append(None)
            continue
        m = ms.pop()
        A = alg.REV.get(m)
        idx = {ix[2] for q in co.values() for i, (kind, ix) in eigen_atoms(q)[m].items() if kind == 1}
        val = {i: ix[-1] for q in co.values() for i, (kind, ix) in eigen_atoms(q)[m].items() if kind == 0}
        if A is None or len(idx) != 1 or len(val) != 1:
            vs.append(None)
            continue
        (lam, lk), k = list(val.items())[0], idx.pop()
        cols.append(k)
        u = []
        for d in range(C):
            vec = [i for i, (kind, ix) in eigen_atoms(co[d])[m].items() if kind == 1 and ix[1] == d and alg.ATOMS[i][0][0] == "cj"]
            if len(vec) != 1:
                vs.append(None)
                break
            u.append(vec[0])
        if len(u) < C:
            continue
        # the operand is the covariance times num / den, and Q_cd^2 lambda den = conj(u_dc)^2 num
        vs.append(k == lk)
        xs = [[i for i in alg.atoms_of(Z[c]) if in_channel(i) == d][0] for d in range(C)]
        N = alg.LABELS[r.frames]
        cov = {(d, e): moment(alg.ONE, alg.var(xs[d]), alg.var(xs[e]), r.frames) for d in range(C) for e in range(C)}
        num, den = alg.mul(A.tab[(0, 0, 0)], N), cov[0, 0]
        if num == den:
            num, den = alg.ONE, alg.ONE
        for d in range(C):
            res = alg.sub(alg.mul(alg.mul(alg.mul(co[d], co[d]), alg.var(lam)), den), alg.mul(alg.mul(alg.var(u[d]), alg.var(u[d])), num))
            v = verdicts([lambda: res])
            vs.append(False if v is None and eigen_nonzero(res, ()) else v)
            for e in range(C):
                vs.append(verdicts([lambda: alg.sub(alg.mul(alg.mul(A.tab[(0, d, e)], N), den), alg.mul(num, cov[d, e]))]))
    v = verdict_all(vs)
    if v is True and sorted(cols) != list(range(C)):
        v = False
    report(R, "whitening", ctx, v, "the signals are whitened: every one is projected on its own eigenvector of the covariance and divided by the square root of the eigenvalue", site_of(r), key="FIVE")
    return (num, den) if v is True else (None, None)


def in_channel(i):
    k = alg.ATOMS[i][0]
    while k[0] in ("sl", "ix"):
        k = alg.ATOMS[k[-1]][0]
    return k[2][0] if k[0] == "in" else None
