"""Exact-arithmetic identities of the linear-algebra helpers, for matrices with unknown entries."""
from fractions import Fraction
from .poly import P
from .vals import *
from .interp import explore, Site
from . import alg, scen
from .scen import S, pub, tensor
from .checks import check
from .checks8 import verdicts, total, dot, report
from .checks9 import guarded

ONE = alg.ONE


def fresh(name, i, real, lab):
    return alg.var(alg.atom(("in", name, i), lab, real, False))


def given(I, sc, name, dims, dtype, how="any", batch=True):
    """a tensor with unknown entries: any, herm (hermitian)"""
    ds = ([(sc.v["B"], "b0")] if batch else []) + [(d, None) for d in dims]
    t = tensor(I, name, ds, dtype)
    name = "%s %s %s %s %s" % (name, dtype, how, batch, dims)
    alg.make_input(I, t, name)
    if how == "herm":
        l = t.lin
        real = dtype.kind != "c"

        def at(i):
            r, c = i[-2], i[-1]
            lead = i[:-2]
            lab = alg.deps(l.tab[i])
            if r == c:
                return fresh(name + "'", i, True, lab)
            if r < c:
                return l.tab[i]
            return alg.conj(l.tab[lead + (c, r)])
        t.lin = alg.build(l.axes, at)
    return t


def call(prog, R, fn, ctx, mk, kw=None, floors="off", mod="torchiva.linalg"):
    """paths of one call of a helper: (arguments, results, path)"""
    def sc(I):
        I.flags["alg"] = True
        I.flags["alg_floors"] = floors
        s = S(I)
        s.size("B", 1, role="b0")
        args = mk(I, s)
        I.flags["given"] = [alg.lin_of(I, a) if isinstance(a, T) else a for a in args]
        return I.call(pub(I, fn, mod), list(args), dict(kw or {}))
    outs, complete = explore(prog, sc, 24)
    R.absorb(outs)
    good = []
    for o in outs:
        if o.cut or o.exc or not complete:
            R.unk("analysed", ctx, o.cut or (o.exc and str(o.exc)) or "paths left")
            continue
        vs = o.value if isinstance(o.value, (tuple, list)) else [o.value]
        ls = [alg.lin_of(o.I, v) if isinstance(v, T) else alg.TOP for v in vs]
        if any(l is alg.TOP for l in ls):
            R.unk("analysed", ctx, "entries of the result are not tracked")
            continue
        good.append((o.I.flags["given"], ls, o))
    return good


def site(o, fn):
    tree = o.I.prog.trees.get("torchiva.linalg") if hasattr(o.I, "prog") else None
    import ast
    if tree is not None:
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == fn:
                return Site("torchiva/linalg.py", n.lineno, fn, "result of %s" % fn)
    return Site("torchiva/linalg.py", 1, fn, "result of %s" % fn)


def mat(l, n, m=None):
    m = n if m is None else m
    lead = (0,) * (len(l.axes) - 2)
    return [[l.tab[lead + (i, j)] for j in range(m)] for i in range(n)]


def vec(l, n):
    lead = (0,) * (len(l.axes) - 1)
    return [l.tab[lead + (i,)] for i in range(n)]


def matmul(A, B):
    return [[total(alg.mul(A[i][k], B[k][j]) for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def same(A, B):
    return verdicts([(lambda p=p, q=q: alg.sub(p, q)) for x, y in zip(A, B) for p, q in (zip(x, y) if isinstance(x, list) else [(x, y)])])


@check("C29", "The helpers of torchiva.linalg on matrices with unknown entries (real and complex, single and double precision, with and without a batch axis of unknown length; sizes 1 to 4), away from the floors and clamps.",
       "polynomial value numbering: the residual of the identity that defines the helper (A inv(A) = I, (A - l B) v = 0, the loaded normal equations, products and transposes entry by entry) is the zero polynomial")
def c29(prog, R, tier):
    deep = tier == "thorough"
    cs = (C64, C128)
    for c in cs if deep else (C128,):
        r = F32 if c is C64 else F64
        for x, y in ((r, r), (r, c), (c, r), (c, c)):
            guarded(R, products, prog, R, x, y)
        for d in (c, r):
            for b in (True, False):
                guarded(R, basics, prog, R, d, b)
                guarded(R, inverse2, prog, R, d, b)
                guarded(R, gevd2, prog, R, d, b)
                guarded(R, evd2, prog, R, d, b)
            for n in (1, 2, 3) + ((4,) if deep else ()):
                guarded(R, loaded, prog, R, n, d)
            guarded(R, general, prog, R, 3, d)
            guarded(R, plain, prog, R, 3, d)
            guarded(R, plain, prog, R, 2, d)


def nm(*ds):
    return " ".join(str(d) for d in ds)


def products(prog, R, x, y):
    ctx = "multiply %s %s" % (x, y)
    for (a, b), (l,), o in call(prog, R, "multiply", ctx, lambda I, s: [given(I, s, "A", [2], x), given(I, s, "b", [2], y)]):
        report(R, "product", ctx, same(vec(l, 2), [alg.mul(p, q) for p, q in zip(vec(a, 2), vec(b, 2))]), "the product is taken entry by entry", site(o, "multiply"), key="multiply")
    if x is y:
        for n, k, m in ((2, 2, 2), (2, 3, 1)):
            if x.kind != "c":
                continue
            ctx = "bmm %dx%dx%d %s" % (n, k, m, x)
            for (a, b), (l,), o in call(prog, R, "bmm", ctx, lambda I, s: [given(I, s, "A", [n, k], x), given(I, s, "B", [k, m], x)]):
                report(R, "product", ctx, same(mat(l, n, m), matmul(mat(a, n, k), mat(b, k, m))), "the product of matrices", site(o, "bmm"), key="bmm")
    ctx = "divide %s %s" % (x, y)
    if y.kind != "c":
        for (a, b), (l,), o in call(prog, R, "divide", ctx, lambda I, s: [given(I, s, "A", [2], x), given(I, s, "b", [2], y)]):
            report(R, "product", ctx, verdicts([(lambda i=i: alg.sub(alg.mul(vec(l, 2)[i], vec(b, 2)[i]), vec(a, 2)[i])) for i in range(2)]), "the quotient times the denominator is the numerator", site(o, "divide"), key="divide")


def basics(prog, R, d, b):
    ctx = "mag_sq %s" % d
    sq = lambda p: alg.mul(p, alg.conj(p))
    for (a,), (l,), o in call(prog, R, "mag_sq", ctx, lambda I, s: [given(I, s, "A", [2], d, batch=b)]):
        report(R, "magnitude", ctx, same(vec(l, 2), [sq(p) for p in vec(a, 2)]), "the squared magnitude", site(o, "mag_sq"), key="mag_sq")
    for (a,), (l,), o in call(prog, R, "mag", ctx, lambda I, s: [given(I, s, "A", [2], d, batch=b)]):
        v = verdicts([(lambda i=i: alg.sub(sq(vec(l, 2)[i]), sq(vec(a, 2)[i]))) for i in range(2)])
        if v is True and not all(alg.isnonneg(p) for p in vec(l, 2)):
            v = None
        report(R, "magnitude", "mag %s" % d, v, "the magnitude", site(o, "mag"), key="mag")
    ctx = "hermite %s" % d
    for kw in ({}, dict(dim1=-1, dim2=-2)):
        for (a,), (l,), o in call(prog, R, "hermite", ctx, lambda I, s: [given(I, s, "A", [2, 3], d, batch=b)], kw):
            A = mat(a, 2, 3)
            report(R, "transpose", ctx, same(mat(l, 3, 2), [[alg.conj(A[j][i]) for j in range(2)] for i in range(3)]), "the conjugate transpose", site(o, "hermite"), key="hermite")
    if b:
        ctx = "hermite other axes %s" % d
        for (a,), (l,), o in call(prog, R, "hermite", ctx, lambda I, s: [given(I, s, "A", [2, 3, 2], d, batch=False)], dict(dim1=0, dim2=1)):
            v = verdicts([(lambda i=i: alg.sub(l.tab[i], alg.conj(a.tab[(i[1], i[0], i[2])]))) for i in alg.indices(l.axes)])
            report(R, "transpose", ctx, v, "the conjugate transpose over the axes asked for", site(o, "hermite"), key="hermite axes")
    ctx = "diagonal_loading %s" % d
    for (a, v_), (l,), o in call(prog, R, "diagonal_loading", ctx, lambda I, s: [given(I, s, "A", [2, 2], d, batch=b), given(I, s, "d", [2], d, batch=b)]):
        A, w = mat(a, 2), vec(v_, 2)
        report(R, "loading", ctx, same(mat(l, 2), [[alg.add(A[i][j], w[i]) if i == j else A[i][j] for j in range(2)] for i in range(2)]), "the diagonal and only the diagonal is loaded", site(o, "diagonal_loading"), key="diagonal_loading")


def identity(n):
    return [[ONE if i == j else {} for j in range(n)] for i in range(n)]


def inverse2(prog, R, d, b):
    ctx = "inv_2x2 %s%s" % (d, "" if b else " single")
    for (a,), (l,), o in call(prog, R, "inv_2x2", ctx, lambda I, s: [given(I, s, "W", [2, 2], d, batch=b)]):
        v = same(matmul(mat(a, 2), mat(l, 2)), identity(2))
        report(R, "inverse", ctx, v, "the product of the matrix and its inverse is the identity", site(o, "inv_2x2"), key="inv_2x2")


def eig_report(R, ctx, A, B, lam, V, o, fn, key):
    n = len(A)
    AV, BV = matmul(A, V), matmul(B, V)
    v = verdicts([(lambda i=i, k=k: alg.sub(AV[i][k], alg.mul(lam[k], BV[i][k]))) for i in range(n) for k in range(n)])
    report(R, "eigenvectors", ctx, v, "the matrix times every eigenvector is the eigenvalue times it", site(o, fn), key=key)
    v = verdicts([(lambda k=k: alg.sub(total(alg.mul(V[i][k], alg.conj(V[i][k])) for i in range(n)), ONE)) for k in range(n)])
    report(R, "eigenvectors-unit", ctx, v, "the eigenvectors have norm one", site(o, fn), key=key)


def ascending(lam, A, B):
    """the eigenvalues of two matrices are the roots of the secular equation, the smaller one first; det B > 0"""
    s = total([alg.mul(A[0][0], B[1][1]), alg.mul(A[1][1], B[0][0]), alg.scale(alg.mul(A[0][1], B[1][0]), -1), alg.scale(alg.mul(A[1][0], B[0][1]), -1)])
    dA, dB = alg.det(A), alg.det(B)
    root = alg.sqrt(alg.sub(alg.mul(s, s), alg.scale(alg.mul(dA, dB), 4)))
    z = {}
    for sign in (1, -1):
        for k in range(2):
            z[k, sign] = verdicts([lambda: alg.sub(alg.mul(alg.scale(dB, 2), lam[k]), alg.add(s, root, sign))])
    if z[0, -1] is True and z[1, 1] is True:
        return True
    if z[0, 1] is True or z[1, -1] is True:
        return False
    if (z[0, -1] is False and z[0, 1] is False) or (z[1, -1] is False and z[1, 1] is False):
        return False
    return None


def gevd2(prog, R, d, b):
    for fn in ("eigh_2x2", "eigh"):
        ctx = "%s(A, B) %s%s" % (fn, d, "" if b else " single")
        for (a, bb), ls, o in call(prog, R, fn, ctx, lambda I, s: [given(I, s, "A", [2, 2], d, "herm", batch=b), given(I, s, "B", [2, 2], d, "herm", batch=b)]):
            A, B = mat(a, 2), mat(bb, 2)
            lam, V = vec(ls[0], 2), mat(ls[1], 2)
            eig_report(R, ctx, A, B, lam, V, o, "eigh_2x2", "generalised")
            report(R, "eigenvalues-ascending", ctx, ascending(lam, A, B), "the eigenvalues are the two roots, the smaller one first", site(o, "eigh_2x2"), key="generalised")


def evd2(prog, R, d, b):
    ctx = "eigh_2x2(A) %s%s" % (d, "" if b else " single")
    for (a,), ls, o in call(prog, R, "eigh_2x2", ctx, lambda I, s: [given(I, s, "A", [2, 2], d, "herm", batch=b)]):
        A = mat(a, 2)
        lam, V = vec(ls[0], 2), mat(ls[1], 2)
        kind = "complex" if d.kind == "c" else "real"
        # eigenvectors of the conjugate of A: a finding of its own
        Ac = [[alg.conj(p) for p in row] for row in A]
        AV = matmul(Ac, V)
        if d.kind == "c" and verdicts([(lambda i=i, k=k: alg.sub(AV[i][k], alg.mul(lam[k], V[i][k]))) for i in range(2) for k in range(2)]) is True:
            kind += ", of the conjugate"
        eig_report(R, ctx, A, identity(2), lam, V, o, "eigh_2x2", "single " + kind)
        report(R, "eigenvalues-ascending", ctx, ascending(lam, A, identity(2)), "the eigenvalues are the two roots, the smaller one first", site(o, "eigh_2x2"), key="single")


def plain(prog, R, n, d):
    """eigh without a second matrix decomposes the matrix it is given"""
    for cpu in (False, True):
        ctx = "eigh(A) n=%d %s%s" % (n, d, " on the CPU" if cpu else "")
        for (a,), ls, o in call(prog, R, "eigh", ctx, lambda I, s: [given(I, s, "A", [n, n], d, "herm")], dict(use_eigh_cpu=cpu)):
            v = None
            ent = [p for row in mat(ls[1], n) for p in row]
            if all(len(p) == 1 and len(list(alg.atoms_of(p))) == 1 for p in ent):
                ops = [alg.eigen_operand(list(alg.atoms_of(p))[0]) for p in ent]
                A = mat(a, n)
                if all(m is not None and tuple(m.axes[-2:]) == (n, n) for m in ops):
                    v = verdicts([(lambda i=i, j=j, m=m: alg.sub(mat(m, n)[i][j], A[i][j])) for m in ops for i in range(n) for j in range(i + 1)])
            report(R, "eigenvectors", ctx, v, "the decomposition of the matrix that was given", site(o, "eigh"), key="plain")


def systems(l, n, k):
    """(A, B) of the solve of which column k is the solution"""
    lead = (0,) * (len(l.axes) - 2)
    ids = set()
    AB = None
    for c in range(n):
        p = l.tab[lead + (c, k)]
        at = list(alg.atoms_of(p))
        if len(p) != 1 or p != alg.var(at[0]) or alg.ATOMS[at[0]][0][0] != "solve" or alg.ATOMS[at[0]][0][2] != c:
            return None
        ids.add(alg.ATOMS[at[0]][0][1])
        A, B, _ = alg.NAMED[at[0]][1]
        AB = A, B
    return AB if len(ids) == 1 else None


def loaded(prog, R, n, d):
    """the solution of (A + f I) x = b, with f = 0 when the loading is switched off"""
    for load in (0.0, None):
        kw = {} if load is None else dict(load=load)
        for fn in ("solve_loaded", "inv_loaded"):
            ctx = "%s n=%d %s%s" % (fn, n, d, "" if load is None else " load=0")
            mk = lambda I, s: [given(I, s, "A", [n, n], d)] + ([given(I, s, "b", [n, 2], d)] if fn == "solve_loaded" else [])
            for g, (l,), o in call(prog, R, fn, ctx, mk, kw):
                A = mat(g[0], n)
                m = 2 if fn == "solve_loaded" else n
                rhs = mat(g[1], n, m) if fn == "solve_loaded" else identity(n)
                v = True
                for k in range(m):
                    ab = systems(l, n, k)
                    if ab is None:
                        v = None
                        break
                    M, y = ab
                    f = alg.sub(M[0][0], A[0][0])
                    if load == 0.0 or not alg.isreal(f):
                        f = {}
                    w = verdicts([(lambda i=i, j=j: alg.sub(M[i][j], alg.add(A[i][j], f) if i == j else A[i][j])) for i in range(n) for j in range(n)] +
                                 [(lambda i=i: alg.sub(y[i], rhs[i][k])) for i in range(n)])
                    v = w if w is not True else v
                report(R, "loaded-system", ctx, v, "the system with its diagonal loaded by one real number", site(o, fn), key=fn)
        ctx = "solve_loaded_general n=%d %s%s" % (n, d, "" if load is None else " load=0")

        def mk(I, s):
            A, Y = given(I, s, "A", [n, n], d), given(I, s, "y", [n, 2], d)
            a, y = alg.lin_of(I, A), alg.lin_of(I, Y)
            b = given(I, s, "b", [n, 2], d)
            prod = matmul(mat(a, n), mat(y, n, 2))
            b.lin = alg.build(b.lin.axes, lambda i: prod[i[-2]][i[-1]])
            I.flags["y"] = y
            return [A, b]
        for g, (l,), o in call(prog, R, "solve_loaded_general", ctx, mk, kw):
            y = mat(o.I.flags["y"], n, 2)
            v = True
            for k in range(2):
                ab = systems(l, n, k)
                if ab is None:
                    v = None
                    break
                M, B = ab
                My = [dot(row, [y[i][k] for i in range(n)]) for row in M]
                # M y - B = f y
                f = None
                if load is None:
                    f = verdicts([(lambda i=i: alg.sub(alg.mul(alg.sub(My[i], B[i]), y[0][k]), alg.mul(alg.sub(My[0], B[0]), y[i][k]))) for i in range(n)])
                else:
                    f = verdicts([(lambda i=i: alg.sub(My[i], B[i])) for i in range(n)])
                if f is True and alg.det(M) == {}:
                    f = None
                v = f if f is not True else v
            report(R, "loaded-system", ctx, v, "b = A y gives y up to the loading of the normal equations", site(o, "solve_loaded_general"), key="solve_loaded_general")


def eig_atoms(ps):
    """{operand: {(part, index): atom}} of the eigen-decompositions in some entries"""
    out = {}
    for p in ps:
        for i in deep_atoms(p):
            m = alg.eigen_operand(i)
            if m is not None:
                out.setdefault(m.canon(), (m, set()))[1].add(i)
    return out


def deep_atoms(p, seen=None):
    """the atoms of a polynomial and of the polynomials under its roots and reciprocals"""
    seen = set() if seen is None else seen
    for i in alg.atoms_of(p):
        if i in seen:
            continue
        seen.add(i)
        k = alg.ATOMS[i][0]
        if k[0] == "cj":
            seen.add(k[1])
        elif k[0] in ("poly", "sqrt"):
            deep_atoms(alg.NAMED[i][1][0], seen)
    return seen


def general(prog, R, n, d):
    """M A M^H w = l w, v = M^H w with M = D^-1/2 U^H or U D^-1/2 U^H and B = U D U^H"""
    ctx = "eigh(A, B) n=%d %s" % (n, d)
    for (a, bb), ls, o in call(prog, R, "eigh", ctx, lambda I, s: [given(I, s, "A", [n, n], d, "herm"), given(I, s, "B", [n, n], d, "herm")]):
        A, B, V, lam = mat(a, n), mat(bb, n), mat(ls[1], n), vec(ls[0], n)
        report(R, "eigenvectors", ctx, reduction(A, B, lam, V, n), "the eigenproblem is reduced to one of a single hermitian matrix", site(o, "eigh"), key="reduction")
        v = verdicts([(lambda k=k: alg.sub(total(alg.mul(V[i][k], alg.conj(V[i][k])) for i in range(n)), ONE)) for k in range(n)])
        report(R, "eigenvectors-unit", ctx, v, "the eigenvectors have norm one", site(o, "eigh"), key="reduction")


def parts(ids, n):
    """matrix of eigenvectors and eigenvalues of one decomposition"""
    own = {(alg.ATOMS[i][0][3], alg.ATOMS[i][0][4]): i for i in ids}
    b = next((k[1][:-2] for k in own if k[0] == 1), None)
    if b is None:
        return None, None
    W = [[own.get((1, b + (r, c))) for c in range(n)] for r in range(n)]
    D = [own.get((0, b + (c,))) for c in range(n)]
    if any(x is None for row in W for x in row):
        return None, None
    return [[alg.var(x) for x in row] for row in W], None if None in D else [alg.var(x) for x in D]


def reduction(A, B, lam, V, n):
    found = eig_atoms([p for row in V for p in row] + lam)
    of_B = [ids for m, ids in found.values() if tuple(m.axes[-2:]) == (n, n) and mat(m, n) == B]
    rest = [(m, ids) for m, ids in found.values() if tuple(m.axes[-2:]) == (n, n) and mat(m, n) != B]
    if len(rest) != 1 or len(of_B) > 1:
        return None
    K = mat(rest[0][0], n)
    W, l = parts(rest[0][1], n)
    if W is None or l is None or lam != l:
        return None
    sub = eig_atoms([p for row in K for p in row])
    ids = next((i for m, i in sub.values() if tuple(m.axes[-2:]) == (n, n) and mat(m, n) == B), None)
    if ids is None:
        return None
    U, D = parts(ids, n)
    if U is None or D is None:
        return None
    if not of_B:
        return False            # the eigenvectors of the reduced matrix are not brought back
    h = [alg.power(alg.sqrt(q), -1) for q in D]
    UH = [[alg.conj(U[j][i]) for j in range(n)] for i in range(n)]
    half = [[alg.mul(h[i], UH[i][j]) for j in range(n)] for i in range(n)]
    for M in (half, matmul(U, half)):
        MH = [[alg.conj(M[j][i]) for j in range(n)] for i in range(n)]
        if same(K, matmul(matmul(M, A), MH)) is not True:
            continue
        E = matmul(MH, W)
        v = verdicts([(lambda i=i, j=j: alg.sub(alg.mul(V[i][j], E[0][j]), alg.mul(V[0][j], E[i][j]))) for i in range(1, n) for j in range(n)])
        if v is True:
            return True
        # rows of M^H times a unitary matrix have different norms: as rows they are not unit vectors of anything
        v = verdicts([(lambda i=i, j=j: alg.sub(alg.mul(V[i][j], E[i][0]), alg.mul(V[i][0], E[i][j]))) for i in range(n) for j in range(1, n)])
        if v is True:
            f = [alg.mul(V[i][0], alg.conj(V[i][0])) for i in range(n)]
            if verdicts([(lambda i=i: alg.sub(alg.mul(f[i], total(alg.mul(E[i][j], alg.conj(E[i][j])) for j in range(n))), alg.mul(E[i][0], alg.conj(E[i][0])))) for i in range(n)]) is True:
                return False
    # D A D^H, D B D^H with D diagonal and unitary: the eigenvectors become D v, and K becomes F K F^H
    ch = Charge(A, B, U, W)
    g = [[ch.of(K[i][j]) for j in range(n)] for i in range(n)]
    if any(x == "mixed" for row in g for x in row):
        return False
    for i in range(n):
        for k in range(n):
            ch.put(W[i][k], {**dict(g[i][0] or ()), ("w", k): -1})
    e = [[ch.of(clean(V[i][j], W)) for j in range(n)] for i in range(n)]
    if any(x == "mixed" for row in e for x in row):
        return False
    # B -> t B multiplies the eigenvalues by 1/t
    deg = {degree(m, {next(iter(alg.atoms_of(q))) for q in D}) for row in K for p in row for m in p}
    if None not in deg and len(deg) == 1 and deg != {-1}:
        return False
    return None


def degree(m, ds):
    """degree of a monomial in some atoms, counting the roots of them"""
    t = 0
    for i, e in m:
        if i in ds:
            t += e
            continue
        k = alg.ATOMS[i][0]
        if k[0] in ("poly", "sqrt"):
            p = alg.NAMED[i][1][0]
            if set(alg.atoms_of(p)) <= ds and all(sum(x for _, x in q) == 1 for q in p):
                t += e if k[0] == "poly" else Fraction(e) / 2
            elif set(alg.atoms_of(p)) & ds:
                return None
    return t


def clean(p, W):
    """without the common normalisation"""
    return {tuple(t for t in m if alg.ATOMS[t[0]][0][0] not in ("sqrt", "poly")): c for m, c in p.items()}


class Charge:
    """phases of monomials under a diagonal unitary change of coordinates and under the phases of eigenvectors"""

    def __init__(self, A, B, U, W):
        self.q = {}
        n = len(U)
        self.real = all(alg.isreal(p) for M in (A, B, U, W) for row in M for p in row)      # phases are signs
        for M in (A, B):
            for i in range(n):
                for j in range(i + 1, n):
                    self.put(M[i][j], {("x", i): 1, ("x", j): -1})
        for i in range(n):
            for k in range(n):
                self.put(U[i][k], {("x", i): 1, ("u", k): -1})

    def put(self, p, q):
        for i in alg.atoms_of(p):
            self.q[i] = q
            (m, _), = alg.conj_atom(i).items()
            if m[0][0] != i:
                self.q[m[0][0]] = {k: -v for k, v in q.items()}

    def of(self, p):
        seen = set()
        for m in p:
            t = {}
            for i, e in m:
                for k, v in self.q.get(i, {}).items():
                    t[k] = t.get(k, 0) + v * e
            if self.real:
                t = {k: v % 2 for k, v in t.items()}
            seen.add(frozenset((k, v) for k, v in t.items() if v))
        return "mixed" if len(seen) > 1 else next(iter(seen), None)
