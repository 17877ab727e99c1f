"""Phase-charge typing.

Every complex tensor carries the character by which it transforms when the
phase of input channel c is rotated by phi_c(f): a formal sum of group elements
indexed by its own axes (Atom.q) and by fixed indices (T.qs).  Eigenvectors
introduce a fresh gauge group (their arbitrary phase).  Sums must be
homogeneous, contractions must cancel, and non-linear functions need a neutral
argument; anything else is "bad" (definitely not covariant).
"""
from .poly import P, Poly
from .vals import T, Dim, Atom, H


def qd(q):
    return dict(q)


def qn(d):
    return tuple(sorted(((k, c) for k, c in d.items() if c), key=lambda x: repr(x)))


def qadd(a, b, s=1):
    d = dict(a)
    for k, c in b:
        d[k] = d.get(k, 0) + s * c
    return qn(d)


def qneg(q):
    return tuple((k, -c) for k, c in q)


def qscale(q, s):
    return qn({k: c * s for k, c in q})


def qshift(q, s):
    s = P(s)
    if not s.t:
        return q
    return qn({(g, P(o) + s): c for (g, o), c in q})


def qat(q, i):
    """charge of the index value i (scalar part)"""
    i = P(i)
    return qn({(g, P(o) + i): c for (g, o), c in q})


def qgroups(q):
    return {g for (g, o), c in q}


def is_bad(t):
    return isinstance(t.qst, tuple)


def neutral(t):
    if t.qst != "ok" or t.qs or t.qe or t.comp or t.ri:
        return False
    if t.shape is None:
        return True
    return not any(a.q for d in t.shape for a in d.atoms)


def charged_atoms(t):
    return [(i, j, a) for i, d in enumerate(t.shape or ()) for j, a in enumerate(d.atoms) if a.q]


def all_groups(t):
    g = qgroups(t.qs)
    for d in t.shape or ():
        for a in d.atoms:
            g |= qgroups(a.q)
    if t.qe:
        for v in t.qe[1].values():
            if v is not None:
                g |= qgroups(v)
    return g


def merge_status(I, ts):
    """combined status of multiplicative operands"""
    for t in ts:
        if isinstance(t, T) and is_bad(t):
            return t.qst
    for t in ts:
        if isinstance(t, T) and t.qst == "zero":
            return "zero"
    for t in ts:
        if isinstance(t, T) and t.qst == "unk":
            return "unk"
    return "ok"


def set_neutral(t):
    t.shape = None if t.shape is None else tuple(Dim(a.rep(q=(), d=None) for a in d.atoms) for d in t.shape)
    t.qs, t.dl, t.qe, t.comp, t.ri = (), (), None, None, False
    if t.qst != "zero":
        t.qst = "ok"
    return t


def set_unk(t):
    set_neutral(t)
    t.qst = "unk"
    return t


def set_bad(I, t, why):
    set_neutral(t)
    t.qst = ("bad", I.site(), why)
    return t


def set_status(t, st):
    set_neutral(t)
    t.qst = st
    return t


# ---------------------------------------------------------------------------
# separable form of an operand, as mutable dictionaries
class Sep:
    """mutable separable charge of one tensor"""

    def __init__(self, t):
        self.q = {}      # (dim, atom) -> q tuple
        self.d = {}      # (dim, atom) -> (id, off)
        for i, dim in enumerate(t.shape):
            for j, a in enumerate(dim.atoms):
                self.q[(i, j)] = a.q
                if a.d is not None:
                    self.d[(i, j)] = a.d
        self.qs = t.qs
        self.dl = dict(t.dl)

    def copy(self):
        c = Sep.__new__(Sep)
        c.q, c.d, c.qs, c.dl = dict(self.q), self.d, self.qs, self.dl
        return c

    def deltas(self):
        ids = {}
        for pos, (i, o) in self.d.items():
            ids.setdefault(i, []).append((pos, o))
        return ids

    def shift(self, pos, dq):
        """add -dq at pos using a delta through pos; returns True if possible"""
        if pos not in self.d:
            return False
        did, off = self.d[pos]
        for p2, (i2, o2) in self.d.items():
            if p2 != pos and i2 == did:
                self.q[pos] = qadd(self.q[pos], dq, -1)
                # idx1 + off == idx2 + o2 ; group[idx1 + o] = group[idx2 + o2 - off + o]
                self.q[p2] = qadd(self.q[p2], qshift(dq, P(o2) - P(off)))
                return True
        if did in self.dl:
            idx = self.dl[did]
            self.q[pos] = qadd(self.q[pos], dq, -1)
            self.qs = qadd(self.qs, qat(dq, P(idx) - P(off)))
            return True
        return False


def eq_q(I, a, b):
    """equality of formal sums up to provable equality of indices"""
    a, b = dict(a), dict(b)
    d = qadd(qn(a), qn(b), -1)
    return is_zero_q(I, d)


def is_zero_q(I, d):
    if not d:
        return True
    # merge provably equal indices
    items = []
    for (g, o), c in d:
        for it in items:
            if it[0] == g and I.facts.prove_eq(it[1], o):
                it[2] += c
                break
        else:
            items.append([g, P(o), c])
    return all(c == 0 for _, _, c in items)


# ---------------------------------------------------------------------------
def fit_elements(I, t):
    """try to turn an element table into separable form"""
    dims, tab = t.qe
    nd = len(t.shape)
    pos = [nd + d if d < 0 else d for d in dims]
    for p in pos:
        if len(t.shape[p].atoms) != 1:
            return None
    groups = set()
    for v in tab.values():
        if v is not None:
            groups |= qgroups(v)
    known = [(k, v) for k, v in tab.items() if v is not None]
    if not known:
        z = t.clone()
        z.qe = None
        z.qst = "zero"
        return z
    import itertools
    cand = list(itertools.product((-1, 0, 1), repeat=len(pos)))
    cand.sort(key=lambda c: (sum(map(abs, c)), c))
    best = {}
    rest = {k: dict(v) for k, v in known}
    for g in sorted(groups, key=repr):
        ok = None
        for c in cand:
            vals = None
            good = True
            for k, v in known:
                d = {kk: cc for kk, cc in v if kk[0] == g}
                for ki, ci in zip(k, c):
                    if ci:
                        key = (g, P(ki))
                        d[key] = d.get(key, 0) - ci
                d = qn(d)
                if vals is None:
                    vals = d
                elif not eq_q(I, vals, d):
                    good = False
                    break
            if good:
                ok = (c, vals)
                break
        if ok is None:
            return None
        best[g] = ok
    z = t.clone()
    z.qe = None
    shp = [list(d.atoms) for d in z.shape]
    qs = t.qs
    for g, (c, vals) in best.items():
        qs = qadd(qs, vals)
        for p, ci in zip(pos, c):
            if ci:
                a = shp[p][0]
                shp[p][0] = a.rep(q=qadd(a.q, (((g, P(0)), ci),)))
    z.shape = tuple(Dim(x) for x in shp)
    z.qs = qs
    return z


def settle(I, t):
    """replace an element table by separable form, or give up (unknown)"""
    if t.qe is None:
        return t
    z = fit_elements(I, t)
    if z is None:
        z = t.clone()
        set_unk(z)
    return z


# ---------------------------------------------------------------------------
def nonlinear(I, x, out, what):
    """charge of f(x) for a non-linear elementwise f; out already has x's dims"""
    if x.qst == "zero":
        # f(0) is a constant
        set_neutral(out)
        out.qst = "ok"
        return out
    if is_bad(x):
        return set_status(out, x.qst)
    if x.qst == "unk":
        return set_unk(out)
    if neutral(x):
        return set_neutral(out)
    return set_bad(I, out, "%s applied to a phase-dependent quantity" % what)


def absolute(I, x, out):
    if (is_bad(x) or x.qst == "unk") and I.flags.get("lenient_abs"):
        # at a fixed point of the iteration the argument is homogeneous
        return set_neutral(out)
    if is_bad(x):
        return set_status(out, x.qst)
    if x.comp:
        return set_bad(I, out, "magnitude of a phase-dependent real/imaginary part")
    st = x.qst
    set_neutral(out)
    out.qst = st if st in ("zero", "unk") else "ok"
    if out.qst == "unk":
        out.qst = "ok"    # the magnitude of anything homogeneous is neutral; unknown stays unknown
        out.qst = "unk"
    return out


def conj(I, x, out):
    if out.qst == "ok":
        out.shape = tuple(Dim(a.rep(q=qneg(a.q)) for a in d.atoms) for d in out.shape)
        out.qs = qneg(out.qs)
        if out.qe:
            out.qe = (out.qe[0], {k: (None if v is None else qneg(v)) for k, v in out.qe[1].items()})
    return out


def align(I, shapes, rank):
    """right-align a list of shapes to rank; missing dims are None"""
    out = []
    for s in shapes:
        out.append([None] * (rank - len(s)) + list(s))
    return out


def mul_charge(I, a, b, out, sign=1):
    """out has merged dims (plain atoms); write the charge of a * b**sign"""
    st = merge_status(I, (a, b)) if sign == 1 else merge_div(I, a, b)
    if st != "ok":
        return set_status(out, st)
    a, b = settle(I, a), settle(I, b)
    if a.qst == "unk" or b.qst == "unk":
        return set_unk(out)
    rank = len(out.shape)
    A, B = align(I, (a.shape, b.shape), rank)
    shp = []
    qs = qadd(a.qs, b.qs, sign)
    for d, da, db in zip(out.shape, A, B):
        atoms = list(d.atoms)
        for dd, s in ((da, 1), (db, sign)):
            if dd is None or not dd.atoms:
                continue
            if len(dd.atoms) != len(atoms):
                if dd.charged():
                    return set_unk(out)
                continue
            for j, at in enumerate(dd.atoms):
                x = atoms[j]
                q = qadd(x.q, at.q, s)
                dl = x.d if x.d is not None else at.d
                atoms[j] = x.rep(q=q, d=dl)
        shp.append(Dim(atoms))
    out.shape = tuple(shp)
    out.qs = qs
    out.dl = tuple(a.dl) + tuple(x for x in b.dl if x not in a.dl)
    out.qst = "ok"
    out.qe, out.comp, out.ri = None, None, False
    return out


def merge_div(I, a, b):
    if is_bad(a):
        return a.qst
    if is_bad(b):
        return b.qst
    if a.qst == "zero":
        return "zero"
    if b.qst in ("zero", "unk") or a.qst == "unk":
        return "unk"
    return "ok"


def copy_charge(src, out):
    """out has the rank of src (or larger, broadcasting on the left)"""
    rank = len(out.shape)
    A = [None] * (rank - len(src.shape)) + list(src.shape)
    shp = []
    for d, ds in zip(out.shape, A):
        if ds is None or len(ds.atoms) != len(d.atoms):
            if ds is not None and ds.charged():
                return set_unk(out)
            shp.append(Dim(a.rep(q=(), d=None) for a in d.atoms))
        else:
            shp.append(Dim(a.rep(q=s.q, d=s.d) for a, s in zip(d.atoms, ds.atoms)))
    out.shape = tuple(shp)
    out.qs, out.dl, out.qe, out.comp, out.ri, out.qst = src.qs, src.dl, src.qe, src.comp, src.ri, src.qst
    return out


def add_charge(I, a, b, out, what="sum"):
    """charge of a + b (homogeneity check)"""
    if is_bad(a):
        return set_status(out, a.qst)
    if is_bad(b):
        return set_status(out, b.qst)
    if a.qst == "zero" and b.qst == "zero":
        return set_status(out, "zero")
    if a.qst == "zero":
        return copy_charge(b, out)
    if b.qst == "zero":
        return copy_charge(a, out)
    if a.qst == "unk" or b.qst == "unk":
        return set_unk(out)
    if a.ri != b.ri:
        return set_unk(out)
    ri = a.ri
    if a.qe is not None and b.qe is not None and a.qe[0] == b.qe[0] and a.qe[1].keys() == b.qe[1].keys():
        okq = all((a.qe[1][k] is None or b.qe[1][k] is None or eq_q(I, a.qe[1][k], b.qe[1][k])) for k in a.qe[1])
        if okq:
            return copy_charge(a, out)
        return set_bad(I, out, "%s of terms with different phase behaviour" % what)
    a, b = settle(I, a), settle(I, b)
    if a.qst == "unk" or b.qst == "unk":
        return set_unk(out)
    if I.flags.get("free_loading"):
        for x, y in ((a, b), (b, a)):
            if x.eye in ("eye", "pos") and not x.data and not y.eye:
                return copy_charge(y, out)
    a, b = split_eye(a, b), split_eye(b, a)
    r = unify(I, a, b, len(out.shape))
    if r is None and I.flags.get("lenient_abs"):
        # an iterative method: the argument is homogeneous at a fixed point of the iteration only
        return set_unk(out)
    if r is None:
        return set_bad(I, out, "%s of terms with different phase behaviour (%s vs %s)" % (what, show(a), show(b)))
    if r == "unk":
        return set_unk(out)
    qa, qs = r
    shp = []
    for i, d in enumerate(out.shape):
        atoms = []
        for j, x in enumerate(d.atoms):
            atoms.append(x.rep(q=qa.get((i, j), ()), d=None))
        shp.append(Dim(atoms))
    out.shape = tuple(shp)
    out.qs, out.dl, out.qst, out.qe, out.comp = qs, (), "ok", None, None
    out.ri = ri
    keep_delta(I, a, b, out)
    return out


def keep_delta(I, a, b, out):
    """the sum of two tensors supported on the same diagonal is supported on it"""
    if len(a.shape) != len(b.shape) or len(a.shape) != len(out.shape) or not (a.dl and b.dl):
        return
    da = {(i, j): x.d for i, d in enumerate(a.shape) for j, x in enumerate(d.atoms) if x.d is not None}
    db = {(i, j): x.d for i, d in enumerate(b.shape) for j, x in enumerate(d.atoms) if x.d is not None}
    if len(a.dl) != 1 or len(b.dl) != 1 or len(da) != 1 or len(db) != 1:
        return
    (pa, (ia, oa)), (pb, (ib, ob)) = list(da.items())[0], list(db.items())[0]
    if pa != pb or a.dl[0][0] != ia or b.dl[0][0] != ib:
        return
    if not I.facts.prove_eq(P(a.dl[0][1]) - P(oa), P(b.dl[0][1]) - P(ob)):
        return
    if pa[0] >= len(out.shape) or pa[1] >= len(out.shape[pa[0]].atoms):
        return
    shp = list(out.shape)
    atoms = list(shp[pa[0]].atoms)
    atoms[pa[1]] = atoms[pa[1]].rep(d=(ia, oa))
    shp[pa[0]] = Dim(atoms)
    out.shape = tuple(shp)
    out.dl = a.dl


def split_eye(t, o):
    """rewrite an identity over a merged axis as a product of identities, following the axes of o"""
    if t.shape is None or o.shape is None or len(o.shape) < 2 or len(t.shape) < 2:
        return t
    (x, y), (ox, oy) = t.shape[-2:], o.shape[-2:]
    if len(x.atoms) != 1 or len(y.atoms) != 1 or len(ox.atoms) < 2 or len(ox.atoms) != len(oy.atoms):
        return t
    ax, ay = x.atoms[0], y.atoms[0]
    if ax.d is None or ay.d is None or ax.d != ay.d or ax.q or ay.q:
        return t
    if any(p.size != q.size for p, q in zip(ox.atoms, oy.atoms)) or ox.size != x.size:
        return t
    z = t.clone()
    nx = Dim(Atom(p.size, p.role, (), ((ax.d[0], "part", j), P(0)), None) for j, p in enumerate(ox.atoms))
    ny = Dim(Atom(p.size, p.role, (), ((ax.d[0], "part", j), P(0)), None) for j, p in enumerate(oy.atoms))
    z.shape = t.shape[:-2] + (nx, ny)
    return z


def show(t):
    s = []
    for i, d in enumerate(t.shape or ()):
        for a in d.atoms:
            if a.q:
                s.append("axis%d:%s" % (i - len(t.shape), "+".join("%+d.%s" % (c, g if isinstance(g, str) else g[0]) for (g, o), c in a.q)))
    for (g, o), c in t.qs:
        s.append("%+d.%s[%r]" % (c, g if isinstance(g, str) else g[0], o))
    return "{" + " ".join(s) + "}"


def unify(I, a, b, rank):
    """common charge of two right-aligned operands, or None when impossible"""
    pa, pb = rank - len(a.shape), rank - len(b.shape)
    sa, sb = Sep(a), Sep(b)
    ka = {(i + pa, j): (i, j) for (i, j) in sa.q}
    kb = {(i + pb, j): (i, j) for (i, j) in sb.q}
    # structural mismatch of merged axes
    for i in range(rank):
        na = len(a.shape[i - pa].atoms) if i >= pa else 0
        nb = len(b.shape[i - pb].atoms) if i >= pb else 0
        if na and nb and na != nb:
            if (i >= pa and a.shape[i - pa].charged()) or (i >= pb and b.shape[i - pb].charged()):
                return "unk"
    def diff(sa, sb):
        out = {}
        for pos in set(ka) | set(kb):
            x = sa.q[ka[pos]] if pos in ka else ()
            y = sb.q[kb[pos]] if pos in kb else ()
            d = qadd(x, y, -1)
            if not is_zero_q(I, d):
                out[pos] = d
        return out

    def search(sa, sb, depth, used):
        df = diff(sa, sb)
        if not df:
            return (sa, sb) if eq_q(I, sa.qs, sb.qs) else None
        if depth == 0:
            return None
        for pos, d in sorted(df.items()):
            for side, s, k, dq in ((0, sa, ka, d), (1, sb, kb, qneg(d))):
                if pos not in k or (side, k[pos]) in used or k[pos] not in s.d:
                    continue
                c = s.copy()
                if c.shift(k[pos], dq):
                    r = search(c if side == 0 else sa, c if side == 1 else sb, depth - 1, used | {(side, k[pos])})
                    if r is not None:
                        return r
        return None
    r = search(sa, sb, 5, frozenset())
    if r is None:
        return None
    sa, sb = r
    if not eq_q(I, sa.qs, sb.qs):
        return None
    q = {}
    for pos in set(ka) | set(kb):
        q[pos] = sa.q[ka[pos]] if pos in ka else sb.q[kb[pos]]
    return q, sa.qs


def reduce_check(I, t, removed):
    """charge check of summing over atoms ``removed`` (list of Atom); returns
    None or a reason why the result is not covariant"""
    for a in removed:
        if a.q and not is_zero_q(I, a.q):
            return "sum over an axis whose elements rotate differently"
    groups = set(qgroups(t.qs))
    rem = {id(x) for x in removed}
    for d in t.shape:
        for a in d.atoms:
            if id(a) not in rem:
                groups |= qgroups(a.q)
    for a in removed:
        if a.role is None:
            continue
        for g in groups:
            if a.role in I.group_vary(g):
                return "phase-dependent quantity summed over the %s axis" % a.role
    return None
