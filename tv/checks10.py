"""Optimality conditions of the beamformers, and the exact-arithmetic identities of the linear-algebra helpers."""
from .poly import P
from .vals import *
from .interp import explore, Site
from . import alg, scen
from .scen import S, pub, tensor
from .checks import check
from .checks8 import (runs, report, moment, verdicts, verdict_all, same_direction, solves_system, cofactors, solve_of, filters, x_atoms, total, dot, site_of, coef)
from .checks9 import some, ent, guarded


def cov(r, C, k, extra=None):
    xs = [alg.var(x) for x in x_atoms(C)]
    m = ent(r.calls[-1][1], (0, k, 0, 0))
    return [[moment(m, a, b, r.frames) for b in xs] for a in xs]


def weights_of(r, C):
    """w of the output w^H x"""
    return [alg.conj(c) for c in filters(r, C)[0]]


def matvec(A, u):
    return [dot(row, u) for row in A]


MVDR = [(2, dict(mvdr_type="rtf"), 2), (2, dict(mvdr_type="scm"), 2), (2, dict(mvdr_type="rtf"), 3), (2, dict(mvdr_type="rtf", n_power_iter=1), 2), (2, dict(mvdr_type="rtf", n_power_iter=2), 2)]


@check("C28", "The output of a beamformer with unknown masks is computed as polynomials over the input, the masks, sums over frames, roots and linear solves; two and three channels, every reference microphone, regularisation set to zero.",
       "polynomial value numbering: the residuals of the optimality conditions (distortionless response, generalised eigenvector of the largest eigenvalue, normal equations of the Wiener filter, Souden's closed form) are zero polynomials")
def c28(prog, R, tier):
    deep = tier == "thorough"
    for C, opts, nm in MVDR:
        for ref in range(C):
            guarded(R, mvdr, prog, R, "MVDRBeamformer", C, dict(opts, ref_mic=ref, eps=0.0), nm)
    for d in (C128, F64):
        for n in (2, 3) if deep else (2,):
            guarded(R, direct, prog, R, n, d)
    for ref in range(2):
        guarded(R, mvdr, prog, R, "GEVBeamformer", 2, dict(ref_mic=ref, eps=0.0), 2)
    for C in (2, 3) + ((4,) if deep else ()):
        for ref in range(C):
            guarded(R, mwf, prog, R, "MWFBeamformer", C, dict(ref_mic=ref, eps=0.0, time_invariant=True), 2)
    for C in (2, 3):
        guarded(R, mwf, prog, R, "MWFBeamformer", C, dict(ref_mic=C - 1, eps=0.0, time_invariant=False), 4)
    for C in (3,):
        for ref in range(C):
            guarded(R, mvdr, prog, R, "MVDRBeamformer", C, dict(mvdr_type="scm", ref_mic=ref, eps=0.0), 2)


def direct(prog, R, n, d):
    """the functions behind the beamformers, on covariance matrices and steering vectors with unknown entries"""
    from .checks11 import call, given, mat, vec, site, same, matmul
    from .checks12 import place
    cx = "n=%d %s" % (n, d)
    mod = "torchiva.beamformer"
    herm = lambda I, s, k: given(I, s, k, [n, n], d, "herm")
    for (Rn, h), (l,), o in call(prog, R, "compute_mvdr_bf", "compute_mvdr_bf " + cx, lambda I, s: [herm(I, s, "N"), given(I, s, "h", [n], d)], dict(eps=0.0), mod=mod):
        w, h, Rn = vec(l, n), vec(h, n), mat(Rn, n)
        at = place(prog, mod, "compute_mvdr_bf")
        v = verdicts([lambda: alg.sub(dot([alg.conj(x) for x in w], h), alg.ONE)])
        if v is None:
            v = unit_response(w, Rn, n, h)
        report(R, "distortionless", "compute_mvdr_bf " + cx, v, "the response of the filter towards the steering vector is one", at, key="compute_mvdr_bf")
        if n == 2:
            report(R, "minimum-variance", "compute_mvdr_bf " + cx, same_direction(matvec(Rn, w), h), "the filter is the inverse noise covariance times the steering vector, up to a factor", at, key="compute_mvdr_bf")
    for ref in range(n):
        for (Rt, Rn), (l,), o in call(prog, R, "compute_mwf_bf", "compute_mwf_bf " + cx, lambda I, s: [herm(I, s, "T"), herm(I, s, "N")], dict(eps=0.0, ref_mic=ref), mod=mod):
            if n > 2:
                continue
            w, Rt, Rn = vec(l, n), mat(Rt, n), mat(Rn, n)
            M = [[alg.add(Rt[i][j], Rn[i][j]) for j in range(n)] for i in range(n)]
            v = same(matvec(M, w), [Rt[c][ref] for c in range(n)])
            report(R, "wiener", "compute_mwf_bf ref_mic=%d %s" % (ref, cx), v, "the filter solves the normal equations of the multichannel Wiener filter", place(prog, mod, "compute_mwf_bf"), key="compute_mwf_bf")
        for (Rt, Rn), (l,), o in call(prog, R, "compute_mvdr_bf2", "compute_mvdr_bf2 " + cx, lambda I, s: [herm(I, s, "T"), herm(I, s, "N")], dict(eps=0.0, ref_mic=ref), mod=mod):
            if n > 2:
                continue
            w, Rt, Rn = vec(l, n), mat(Rt, n), mat(Rn, n)
            adj = [[Rn[1][1], alg.scale(Rn[0][1], -1)], [alg.scale(Rn[1][0], -1), Rn[0][0]]]
            tr = total(alg.mul(adj[i][j], Rt[j][i]) for i in range(2) for j in range(2))
            v = same([alg.mul(x, tr) for x in matvec(Rn, w)], [alg.mul(Rt[c][ref], alg.det(Rn)) for c in range(n)])
            report(R, "souden", "compute_mvdr_bf2 ref_mic=%d %s" % (ref, cx), v, "the filter is the reference column of the inverse noise covariance times the target covariance, over its trace", place(prog, mod, "compute_mvdr_bf2"), key="compute_mvdr_bf2")
        if n == 2:
            for (Rt, Rn), (l,), o in call(prog, R, "compute_mvdr_rtf_eigh", "compute_mvdr_rtf_eigh " + cx, lambda I, s: [herm(I, s, "T"), herm(I, s, "N")], dict(ref_mic=ref), mod=mod):
                h, Rt, Rn = vec(l, n), mat(Rt, n), mat(Rn, n)
                at = place(prog, mod, "compute_mvdr_rtf_eigh")
                ctx = "compute_mvdr_rtf_eigh ref_mic=%d %s" % (ref, cx)
                adj = [[Rn[1][1], alg.scale(Rn[0][1], -1)], [alg.scale(Rn[1][0], -1), Rn[0][0]]]
                report(R, "steering-vector", ctx, verdicts([lambda: alg.sub(h[ref], alg.ONE)]), "the relative transfer function is one at the reference microphone", at, key="compute_mvdr_rtf_eigh")
                report(R, "steering-vector", ctx, same_direction(matvec(Rt, matvec(adj, h)), h), "the noise covariance inverse times it is a generalised eigenvector", at, key="compute_mvdr_rtf_eigh")
    for (Rt, Rn), (l,), o in call(prog, R, "compute_mwf_bf", "compute_mwf_bf " + cx, lambda I, s: [herm(I, s, "T"), herm(I, s, "N")], dict(eps=0.0), mod=mod):
        if n > 2:
            continue
        W, Rt, Rn = mat(l, n), mat(Rt, n), mat(Rn, n)
        M = [[alg.add(Rt[i][j], Rn[i][j]) for j in range(n)] for i in range(n)]
        report(R, "wiener", "compute_mwf_bf all " + cx, same(matmul(M, W), Rt), "the filters solve the normal equations of the multichannel Wiener filter, one column per reference", place(prog, mod, "compute_mwf_bf"), key="compute_mwf_bf")


def mvdr(prog, R, cls, C, opts, nm):
    ctx, rs = runs(prog, R, cls, C, opts, masks=(1, nm))
    ref = opts["ref_mic"]
    for r in rs:
        site = site_of(r)
        w = weights_of(r, C)
        Rt, Rn = cov(r, C, 0), cov(r, C, 1)
        if opts.get("mvdr_type") == "scm":
            souden(R, ctx, r, C, ref, site)
            continue
        Rw = matvec(Rn, w)
        v = unit_response(w, Rn, C, ref) if cls == "MVDRBeamformer" else gev_response(w, Rn, C, ref)
        if v is None and opts.get("n_power_iter"):
            v = verdicts([lambda: alg.sub(dot([alg.conj(x) for x in w], Rw), Rw[ref])])
        report(R, "distortionless", ctx, v, "the response towards the steering vector of the filter is one at the reference microphone", site, key=cls)
        if opts.get("n_power_iter"):
            continue
        got = own_solve(w)
        if got is not None and proportional(got[1], Rn) is True:
            Rw = got[2]
        if nm == 3 or got is not None:
            N2 = cov(r, C, nm - 1)
            e = matvec([[N2[1][1], alg.scale(N2[0][1], -1)], [alg.scale(N2[1][0], -1), N2[0][0]]], Rw)
        else:
            N2, e = Rn, w
        a, b = matvec(Rt, e), matvec(N2, e)
        v = same_direction(a, b)
        report(R, "maximum-snr", ctx, v, "the filter is a generalised eigenvector of the target and noise covariance", site, key=cls)
        if v is True:
            report(R, "maximum-snr", ctx, largest(r, a, b, Rt, N2), "the eigenvalue of the filter is the largest one", site, key=cls)


def own_solve(w):
    """the linear solve of which the entries of a vector are multiples: (identifier, A, B, common factor)"""
    C = len(w)
    sols = [solve_of(p) for p in w]
    for ident in set(sols[0]):
        if not all(ident in s_ for s_ in sols):
            continue
        A, B = sols[0][ident]
        rho = []
        for c in range(C):
            i = alg.IDS.get(("solve", ident, c))
            q = coef(w[c], i) if i is not None else {}
            if not q or alg.mul(q, alg.var(i)) != w[c]:
                break
            rho.append(q)
        if len(rho) == C and all(q == rho[0] for q in rho):
            return ident, A, B, rho[0]
    return None


def proportional(A, M):
    n = len(A)
    return verdicts([(lambda i=i, j=j: alg.sub(alg.mul(A[i][j], M[0][0]), alg.mul(M[i][j], A[0][0]))) for i in range(n) for j in range(n) if i or j])


def unit_response(w, Rn, C, ref):
    """w = z / D, R_n z = h, D = h^H z, h_ref = 1 (or h given)"""
    got = own_solve(w)
    if got is None:
        return None
    ident, A, h, rho = got
    v = proportional(A, Rn)
    if v is not True:
        return v
    one = verdicts([lambda: alg.sub(h[ref], alg.ONE)]) if isinstance(ref, int) else same_direction(h, ref)
    v = scaled(ident, h, rho, C, alg.ONE)
    return one if v is True else None if one is not True else v


def scaled(ident, h, rho, C, at_ref):
    """conj(rho) sum_c conj(z_c) h_c = h_ref, given that sum_c conj(z_c) h_c is real because the matrix is hermitian"""
    z = [alg.var(alg.IDS[("solve", ident, c)]) for c in range(C)]
    q = dot([alg.conj(x) for x in z], h)
    if len(rho) != 1:
        return None
    D = alg.power(rho, -1)
    # with q = conj q: D is a combination of the two
    d = alg.conj(alg.sub(alg.mul(D, at_ref), q))
    im = alg.sub(q, alg.conj(q))
    for c in (0, 1, -1):
        for k in (1, 2):
            if alg.sub(alg.scale(d, k), alg.scale(im, c)) == {}:
                return True
    return verdicts([lambda: d])


def gev_response(w, Rn, C, ref):
    """w = e conj(z_ref), E^H z = e_last, e the last column of E"""
    ids = None
    for c in range(C):
        own = {}
        for i in alg.atoms_of(w[c]):
            k = alg.ATOMS[i][0]
            if k[0] == "cj" and alg.ATOMS[k[1]][0][0] == "solve":
                own[k[1]] = i
        if len(own) != 1:
            return None
        (j, i), = own.items()
        if ids not in (None, (j, i)):
            return None
        ids = (j, i)
    j, i = ids
    A, B, k = alg.NAMED[j][1]
    e = [coef(w[c], i) for c in range(C)]
    u = matvec(Rn, e)
    v = solves_system(A, B, u)
    if v is not True:
        return v
    # the solution is R_n e / (e^H R_n e) when its product with the last row is one
    n = verdicts([(lambda c=c: alg.sub(A[C - 1][c], alg.conj(e[c]))) for c in range(C)] + [lambda: alg.sub(B[C - 1], alg.ONE)])
    if n is not True:
        return None
    return verdicts([lambda: alg.sub(u[k], u[ref])])


def largest(r, a, b, A, B):
    """a = lambda b: True for the larger root of the secular equation, False for the smaller one"""
    s = total([alg.mul(A[0][0], B[1][1]), alg.mul(A[1][1], B[0][0]), alg.scale(alg.mul(A[0][1], B[1][0]), -1), alg.scale(alg.mul(A[1][0], B[0][1]), -1)])
    dA, dB = alg.det(A), alg.det(B)
    delta = alg.sub(alg.mul(s, s), alg.scale(alg.mul(dA, dB), 4))
    root = alg.sqrt(delta)
    out = {}
    for sign in (1, -1):
        out[sign] = verdicts([(lambda k=k: alg.sub(alg.mul(alg.scale(dB, 2), a[k]), alg.mul(alg.add(s, root, sign), b[k]))) for k in range(2)])
        if out[sign] is True:
            return sign == 1
    return None


def souden(R, ctx, r, C, ref, site):
    """R_n w tr(R_n^-1 R_t) = R_t e"""
    Rt, Rn = cov(r, C, 0), cov(r, C, 1)
    w = weights_of(r, C)
    if C == 2:
        adj = [[Rn[1][1], alg.scale(Rn[0][1], -1)], [alg.scale(Rn[1][0], -1), Rn[0][0]]]
        tr = total(alg.mul(adj[i][j], Rt[j][i]) for i in range(2) for j in range(2))
        d = alg.det(Rn)
        Rw = matvec(Rn, w)
        v = verdicts([(lambda c=c: alg.sub(alg.mul(Rw[c], tr), alg.mul(Rt[c][ref], d))) for c in range(2)])
    else:
        v = solution_ratio(r, w, Rt, Rn, C, ref)
    report(R, "souden", ctx, v, "the filter is the reference column of the inverse noise covariance times the target covariance, over its trace", site, key="MVDRBeamformer")


def solution_ratio(r, w, Rt, Rn, C, ref):
    """w_c = z_c / t, z solves R_n z = R_t e, t the trace of the solution for all columns"""
    sols = {}
    for p in w:
        for i in list(alg.atoms_of(p)):
            if alg.ATOMS[i][0][0] == "poly":
                sols.update(solve_of(alg.NAMED[i][1][0]))
        sols.update(solve_of(p))
    col = {}
    for ident, (A, B) in sols.items():
        for d in range(C):
            rhs = [Rt[c][d] for c in range(C)]
            if A == Rn and list(B) == rhs:
                col[d] = ident
    if len(col) != C:
        return None
    z = lambda c, d: alg.var(alg.IDS[("solve", col[d], c)])
    t = total(z(c, c) for c in range(C))
    try:
        return verdicts([(lambda c=c: alg.sub(alg.mul(w[c], t), z(c, ref))) for c in range(C)])
    except KeyError:
        return None


def mwf(prog, R, cls, C, opts, nm):
    ctx, rs = runs(prog, R, cls, C, opts, masks=(1, nm))
    ref = opts["ref_mic"]
    for r in rs:
        w = weights_of(r, C)
        Rt, Rn = cov(r, C, 0), cov(r, C, 1)
        if nm == 4:
            l = r.calls[-1][1]
            vt, vn = ent(l, (0, 2, 0, 0)), ent(l, (0, 3, 0, 0))
            Rt = [[alg.mul(q, vt) for q in row] for row in Rt]
            Rn = [[alg.mul(q, vn) for q in row] for row in Rn]
        M = [[alg.add(Rt[i][j], Rn[i][j]) for j in range(C)] for i in range(C)]
        rhs = [Rt[c][ref] for c in range(C)]
        v = None
        ids = set()
        for c in range(C):
            at = list(alg.atoms_of(w[c]))
            if len(w[c]) == 1 and len(at) == 1 and alg.ATOMS[at[0]][0][0] == "solve" and alg.ATOMS[at[0]][0][2] == c:
                ids.add(alg.ATOMS[at[0]][0][1])
            else:
                ids = set()
                break
        if len(ids) == 1:
            A, B = solve_of(w[0])[ids.pop()]
            # M and A are proportional, and the right-hand sides with the same factor
            f, g = A[0][0], M[0][0]
            v = verdicts([(lambda i=i, j=j: alg.sub(alg.mul(A[i][j], g), alg.mul(M[i][j], f))) for i in range(C) for j in range(C)] +
                         [(lambda i=i: alg.sub(alg.mul(B[i], g), alg.mul(rhs[i], f))) for i in range(C)])
        if v is not True and C == 2:
            Mw = matvec(M, w)
            v = verdicts([(lambda c=c: alg.sub(Mw[c], rhs[c])) for c in range(C)])
        report(R, "wiener", ctx, v, "the filter solves the normal equations of the multichannel Wiener filter", site_of(r), key=cls)
