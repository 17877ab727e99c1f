"""Polynomial value numbering.

The value number of every tensor entry is a polynomial over atoms.  Axes of a
known small size (channels, taps) are enumerated; the other axes (frequencies,
frames) are treated pointwise: an entry stands for all its elements at once.
Sums, products, contractions, conjugation, real and imaginary parts, squares
and square roots are interpreted by ring axioms; everything else (a source
model, a floor, a linear solve, a sum over frames) is an atom named by the
operation and the value numbers of its operands.  Two entries with the same
polynomial are equal for every input; nothing is evaluated.

The domain is switched on by I.flags["alg"]; the transfer functions wrap the
entry points of the tensor operations.
"""
import itertools
from fractions import Fraction

from .poly import Poly, lower
from .vals import *
from . import ops as O
from . import torchops as TO
from . import lib as LB

MAXTERMS = 6000
MAXENT = 120

# ------------------------------------------------------------------ atoms
IDS = {}
ATOMS = []          # (key, deps, real, nonneg, weak, depth)
SQ = {}             # id of a square root -> polynomial under the root
PID = {}            # id of the square root of several terms -> (id of the polynomial with leading coefficient 1, leading coefficient)
SUMS = {}           # id of a sum -> (label, polynomial)
NAMED = {}          # id of an operation -> operands
LABELS = {}         # label -> polynomial of its size


class TooBig(Exception):
    pass


WORK = [None]       # remaining products of terms, None when unlimited


def atom(key, deps=frozenset(), real=False, nonneg=False, weak=False, depth=0):
    i = IDS.get(key)
    if i is None:
        i = IDS[key] = len(ATOMS)
        ATOMS.append((key, frozenset(deps), real, nonneg, weak, depth))
    return i


IM = atom(("i",))       # the imaginary unit


def const(c):
    if isinstance(c, complex):
        return add(const(c.real), mul(const(c.imag), {((IM, 1),): Fraction(1)}))
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return {((atom(("const", repr(c)), real=True), 1),): Fraction(1)}
        c = Fraction(repr(c))
    return {(): Fraction(c)} if c else {}


ZERO, ONE = {}, {(): Fraction(1)}


def var(i):
    return {((i, 1),): Fraction(1)}


def add(p, q, s=1):
    if not q:
        return p
    if not p and s == 1:
        return q
    r = dict(p)
    for m, c in q.items():
        t = r.get(m, 0) + s * c
        if t:
            r[m] = t
        else:
            r.pop(m, None)
    return r


def sub(p, q):
    return add(p, q, -1)


def scale(p, c):
    return {m: x * c for m, x in p.items()} if c else {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        t = d.get(i, 0) + e
        if t:
            d[i] = t
        else:
            del d[i]
    return tuple(sorted(d.items()))


def rough(m):
    """powers that can be simplified"""
    for i, e in m:
        if i == IM:
            if e != 1:
                return True
        elif i in SQ:
            if e != 1 and (e > 0 or e % 2 == 0 or i not in PID):
                return True
            p = PID.get(i)
            if p is not None and any(j == p[0] for j, _ in m):
                return True
    return False


def simplify(m, c):
    """a monomial as a polynomial, with i^2 = -1 and sqrt(p)^2 = p.

    Powers of r = sqrt(p), p of several terms: r^-1, r^-3, ... stay; even negative ones are powers of 1/p"""
    for k, (i, e) in enumerate(m):
        rest = m[:k] + m[k + 1:]
        if i == IM and e != 1:
            e %= 4
            c = c * (1, 1, -1, -1)[e]
            return term(mono_mul(rest, ((IM, 1),)) if e % 2 else rest, c)
        if i in SQ:
            if i not in PID:
                if e == 1:
                    continue
                h, o = divmod(e, 2)
                r = term(mono_mul(rest, ((i, 1),)) if o else rest, c)
                return mul(r, power(SQ[i], h))
            p, lc = PID[i]
            b = next((x for j, x in rest if j == p), 0)
            if b:
                # p = r^2 / lc
                rest = tuple(x for x in rest if x[0] != p)
                t = e + 2 * b
                return term(mono_mul(rest, ((i, t),)) if t else rest, c / lc ** b)
            if e == 1 or (e < 0 and e % 2):
                continue
            if e < 0:
                return term(mono_mul(rest, ((p, e // 2),)), c * lc ** (e // 2))
            h, o = divmod(e, 2)
            r = term(mono_mul(rest, ((i, 1),)) if o else rest, c)
            return mul(r, power(SQ[i], h))
    return {m: c}


def term(m, c):
    return simplify(m, c) if rough(m) else ({m: c} if c else {})


def mul(p, q):
    if not p or not q:
        return {}
    if len(p) * len(q) > 40 * MAXTERMS:
        raise TooBig()
    if WORK[0] is not None:
        WORK[0] -= len(p) * len(q)
        if WORK[0] < 0:
            raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mn = mono_mul(m, n)
            if rough(mn):
                r = add(r, simplify(mn, c * d))
                continue
            t = r.get(mn, 0) + c * d
            if t:
                r[mn] = t
            else:
                r.pop(mn, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def canon(p):
    return tuple(sorted(p.items()))


def deps(p):
    d = frozenset()
    for m in p:
        for i, e in m:
            d |= ATOMS[i][1]
    return d


def atoms_of(p):
    return {i for m in p for i, e in m}


def weak(p):
    return any(ATOMS[i][4] for i in atoms_of(p))


def depth(p):
    return max([ATOMS[i][5] for i in atoms_of(p)], default=0)


def recip(p):
    if not p:
        return {((atom(("const", "1/0"), real=True, weak=True), 1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return term(tuple((i, -e) for i, e in m), 1 / c)
    lead = min(p)
    c = p[lead]
    q = scale(p, 1 / c)
    i = atom(("poly", canon(q)), deps(q), isreal(q), isnonneg(q), weak(q), depth(q) + 1)
    NAMED[i] = ("poly", (q,))
    return {((i, -1),): 1 / c}


def power(p, n):
    if n < 0:
        return recip(power(p, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


CONJ = {}


def conj_atom(i):
    """conjugate of an atom, as a polynomial"""
    r = CONJ.get(i)
    if r is None:
        r = CONJ[i] = conj_of(i)
    return r


def conj_of(i):
    if i == IM:
        return {((IM, 1),): Fraction(-1)}
    key, d, real, nn, w, dp = ATOMS[i]
    if real:
        return var(i)
    if key[0] == "cj":
        return var(key[1])
    if i in SUMS:
        l, p = SUMS[i]
        return sum_over(conj(p), l, split=False)
    if key[0] == "poly":
        # only occurs with negative exponents; the caller inverts
        return conj(NAMED[i][1][0])
    if key[0] in ("sl", "ix"):
        return index_atoms(conj_atom(key[-1]), key[0], key[1], key[2])
    j = atom(("cj", i), d, False, False, w, dp)
    NAMED[j] = NAMED.get(i)
    return var(j)


def conj(p):
    r = {}
    for m, c in p.items():
        # the usual case: every atom is real or its conjugate is an atom
        mm, sg = [], c
        for i, e in m:
            if ATOMS[i][2]:
                mm.append((i, e))
                continue
            q = conj_atom(i) if ATOMS[i][0][0] != "poly" else None
            if q is None or len(q) != 1:
                mm = None
                break
            (qm, qc), = q.items()
            if len(qm) != 1 or qm[0][1] != 1:
                mm = None
                break
            mm.append((qm[0][0], e))
            sg = sg * qc ** e
        if mm is not None:
            k = tuple(sorted(mm))
            if len({i for i, _ in k}) == len(k):
                v = r.get(k, 0) + sg
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
                continue
        t = {(): c}
        for i, e in m:
            if ATOMS[i][2]:
                t = mul(t, {((i, e),): Fraction(1)})
            else:
                q = conj_atom(i)
                t = mul(t, power(q, e))
        r = add(r, t)
    return r


def isreal(p):
    if all(ATOMS[i][2] for i in atoms_of(p)):
        return True
    try:
        return conj(p) == p
    except TooBig:
        return False


def isnonneg(p):
    """sufficient: nonnegative coefficients times nonnegative or squared real atoms, or x conj(x) products"""
    for m, c in p.items():
        if c < 0:
            return False
        left = {}
        for i, e in m:
            if ATOMS[i][3] or (ATOMS[i][2] and e % 2 == 0):
                continue
            left[i] = e
        while left:
            i, e = next(iter(left.items()))
            if ATOMS[i][2]:
                return False
            q = conj_atom(i)
            if len(q) != 1:
                return False
            (mm, cc), = q.items()
            if cc != 1 or len(mm) != 1 or mm[0][1] != 1 or left.get(mm[0][0]) != e:
                return False
            del left[i]
            left.pop(mm[0][0])
    return True


def sqrt(p):
    if not p:
        return {}
    if len(p) == 1 and () in p:
        c = p[()]
        if c > 0:
            a, b = c.numerator, c.denominator
            ra, rb = int(round(a ** 0.5)), int(round(b ** 0.5))
            if ra * ra == a and rb * rb == b:
                return {(): Fraction(ra, rb)}
    i = atom(("sqrt", canon(p)), deps(p), isreal(p), True, weak(p), depth(p))
    if i not in SQ:
        SQ[i] = p
        NAMED[i] = ("sqrt", (p,))
        if len(p) > 1:
            (m, c), = recip(p).items()
            if len(m) == 1 and m[0][1] == -1:
                PID[i] = (m[0][0], 1 / c)
    return var(i)


def absolute(p):
    if isreal(p) and isnonneg(p):
        return p
    r = sqrt(mul(p, conj(p)))
    if len(r) == 1 and conj(p) == p:
        (m, c), = r.items()
        own = [i for i, e in m if i in SQ and e == 1]
        if own:
            i = max(own, key=lambda z: len(SQ[z]))
            MODULUS[i] = mul(p, recip({tuple(x for x in m if x[0] != i): c}))
    return r


def apply(name, params, ps, real=None, nonneg=False):
    """an elementwise operation without axioms"""
    key = ("fn", name, params) + tuple(canon(p) for p in ps)
    d = frozenset()
    for p in ps:
        d |= deps(p)
    i = atom(key, d, all(isreal(p) for p in ps) if real is None else real, nonneg, any(weak(p) for p in ps), max([depth(p) for p in ps], default=0) + 1)
    NAMED[i] = (("fn", name, params), tuple(ps))
    return var(i)


def size_poly(p):
    """a symbolic size as a polynomial"""
    p = Poly.of(p) if not isinstance(p, Poly) else p
    r = {}
    for k, c in p.t.items():
        t = {(): Fraction(c)}
        for s, e in k:
            t = mul(t, {((atom(("size", repr(s)), real=True, nonneg=True), e),): Fraction(1)})
        r = add(r, t)
    return r


def sum_over(p, label, split=True):
    """sum over a pointwise axis; factors that do not depend on it are taken out.  split: term by term"""
    if not p:
        return {}
    out = {}
    rest = {}
    for m, c in p.items():
        ind = tuple((i, e) for i, e in m if label not in ATOMS[i][1])
        dep = tuple((i, e) for i, e in m if label in ATOMS[i][1])
        if not dep:
            out = add(out, mul({ind: c}, LABELS[label]))
        else:
            rest.setdefault(ind, {})[dep] = c
    if not split:
        # one atom for the whole sum, whatever common factor is taken out
        if len(rest) == 1:
            (ind, q), = rest.items()
            return add(out, mul({ind: Fraction(1)}, sum_atom(q, label)))
        q = {}
        for ind, d in rest.items():
            for dep, c in d.items():
                q[mono_mul(ind, dep)] = c
        return add(out, sum_atom(q, label))
    for ind, d in rest.items():
        for dep, c in d.items():
            out = add(out, mul({ind: c}, sum_atom({dep: Fraction(1)}, label)))
    return out


def sum_atom(q, label):
    if not q:
        return {}
    if len(q) == 1:
        # sum over a of a sum over b: the label that comes first inside
        (m, c), = q.items()
        inner = [i for i, e in m if i in SUMS and e == 1 and label < SUMS[i][0]]
        if len(inner) == 1:
            l2, q2 = SUMS[inner[0]]
            rest = tuple(x for x in m if x[0] != inner[0])
            if not any(l2 in ATOMS[i][1] for i, e in rest):
                return scale(sum_over(sum_over(mul(q2, {rest: Fraction(1)}), label, False), l2, False), c)
    lead = min(q)
    c = q[lead]
    q = scale(q, 1 / c)
    i = atom(("sum", label, canon(q)), deps(q) - {label}, isreal(q), isnonneg(q), weak(q), depth(q) + 1)
    SUMS[i] = (label, q)
    return {((i, 1),): c}


def index_atoms(p, kind, label, par):
    """slice or index a pointwise axis of every atom"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for i, e in m:
            k, d, real, nn, w, dp = ATOMS[i]
            if label in d:
                nd = d - {label}
                if kind == "sl":
                    nd |= {par[-1]}
                if k[0] == "poly":
                    q = index_atoms(NAMED[i][1][0], kind, label, par)
                    t = mul(t, power(q, e))
                    continue
                if i in SQ:
                    t = mul(t, power(sqrt(index_atoms(SQ[i], kind, label, par)), e))
                    continue
                j = atom((kind, label, par, i), nd, real, nn, w, dp)
                t = mul(t, {((j, e),): Fraction(1)})
            else:
                t = mul(t, {((i, e),): Fraction(1)})
        r = add(r, t)
    return r


# ------------------------------------------------------------------ tensors
class L:
    """entries of a tensor: axes holds a size (enumerated axis) or a label (pointwise axis)"""
    __slots__ = ("axes", "tab", "root", "ver", "_c")

    def __init__(self, axes, tab):
        self.axes, self.tab, self.root, self.ver, self._c = tuple(axes), tab, None, 0, None

    def get(self, idx):
        return self.tab[idx]

    def canon(self):
        if self._c is None:
            k = ("L", self.axes, tuple((i, canon(p)) for i, p in sorted(self.tab.items())))
            self._c = INTERN.setdefault(k, len(INTERN))
            REV[self._c] = self
        return self._c

    def weak(self):
        return any(weak(p) for p in self.tab.values())


INTERN, REV = {}, {}


class Top:
    """entries unknown"""
    axes = tab = None


TOP = Top()


def indices(axes):
    return itertools.product(*[range(a) if isinstance(a, int) else (0,) for a in axes])


def axis_of(d):
    s = lower(d.size)
    if isinstance(s, int) and s <= 12:
        return s
    r = repr(s)
    LABELS[r] = size_poly(s)
    return r


def axes_of(t):
    if t.shape is None:
        return None
    a = tuple(axis_of(d) for d in t.shape)
    lab = [x for x in a if not isinstance(x, int)]
    if len(set(lab)) != len(lab):
        return None
    n = 1
    for x in a:
        n *= x if isinstance(x, int) else 1
    return a if n <= MAXENT else None


def build(axes, f):
    return L(axes, {i: f(i) for i in indices(axes)})


def make_input(I, t, name, real=None, nonneg=False):
    """entries of a tensor given by the caller"""
    axes = axes_of(t)
    lab = frozenset(a for a in axes if not isinstance(a, int))
    real = (t.dtype is not None and t.dtype.kind != "c") if real is None else real
    t.lin = build(axes, lambda i: var(atom(("in", name, i), lab, real, nonneg)))
    return t


def opaque(t, key, operands, dp=1, weak_=False):
    """entries of the result of an operation without axioms"""
    axes = axes_of(t)
    if axes is None:
        return TOP
    lab = frozenset(a for a in axes if not isinstance(a, int))
    real = t.dtype is not None and t.dtype.kind != "c"
    nn = t.lo in ("ge0", "gt0", "gtc") and real

    def one(i):
        j = atom(key + (i,), lab, real, nn, weak_, dp)
        NAMED[j] = (key[:2], operands)
        return var(j)
    return build(axes, one)


def lin_of(I, t):
    """current entries of a tensor"""
    l = t.lin
    if isinstance(l, L):
        if l.root is not None and I.flags.setdefault("alg_ver", {}).get(l.root, 0) != l.ver:
            return TOP
        if t.shape is not None and len(t.shape) == len(l.axes):
            return l
        return TOP
    if isinstance(l, Top):
        return TOP
    if t.shape is None:
        return TOP
    if t.val is not None and isinstance(t.val, (int, float)):
        axes = axes_of(t)
        if axes is not None:
            return build(axes, lambda i: const(t.val))
    r = opaque(t, ("vn", repr(t.vn)), (), 0, True)
    return r


def operand(I, x):
    """(axes, table) of a tensor or number, None when not tracked"""
    if isinstance(x, T):
        return lin_of(I, x)
    s = scalar(x)
    return TOP if s is None else L((), {(): s})


FLT = {}        # value number of a float -> polynomial


def float_op(name, a, b, r):
    """a Python number computed from others"""
    name = name.lower()
    p, q = scalar(a), scalar(b)
    if p is None or q is None or r.vn in FLT:
        return
    if name in ("add", "sub", "mul", "mult"):
        FLT[r.vn] = BIN[name](p, q)
    elif name in ("div", "truediv"):
        FLT[r.vn] = mul(p, recip(q))
    elif name == "pow" and len(q) == 1 and () in q:
        FLT[r.vn] = pw(p, q)


def scalar(x):
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, float, complex)):
        return const(x)
    if isinstance(x, Poly):
        return size_poly(x)
    if isinstance(x, Flt):
        if x.vn in FLT:
            return FLT[x.vn]
        return var(atom(("flt", repr(x.vn)), real=True, nonneg=x.lo in ("ge0", "gt0", "gtc")))
    return None


def key_of(I, x):
    """name of an argument of an operation without axioms; second result: not to be trusted"""
    if isinstance(x, T):
        l = lin_of(I, x)
        if l is TOP:
            return ("?", repr(x.vn)), True
        return ("L", l.canon()), l.weak()
    if isinstance(x, (list, tuple)):
        r = [key_of(I, y) for y in x]
        return tuple(k for k, _ in r), any(w for _, w in r)
    if isinstance(x, dict):
        r = [(k, key_of(I, v)) for k, v in sorted(x.items(), key=lambda z: str(z[0]))]
        return tuple((str(k), v[0]) for k, v in r), any(v[1] for _, v in r)
    if isinstance(x, (Unk,)):
        return ("u", repr(x.vn)), True
    return repr(vnof(x)), False


def ldepth(I, xs):
    r = 0
    for x in xs:
        if isinstance(x, T):
            l = lin_of(I, x)
            if l is not TOP:
                r = max([r] + [depth(p) for p in l.tab.values()])
        elif isinstance(x, (list, tuple)):
            r = max(r, ldepth(I, x))
    return r


# ------------------------------------------------------------------ elementwise
def align(ls):
    """common axes of operands that are broadcast together; None when it does not work out"""
    n = max(len(l.axes) for l in ls)
    out = []
    for k in range(n):
        a = 1
        for l in ls:
            p = k - (n - len(l.axes))
            if p < 0:
                continue
            b = l.axes[p]
            if b == 1:
                continue
            if a == 1:
                a = b
            elif a != b:
                return None
        out.append(a)
    lab = [a for a in out if not isinstance(a, int)]
    return tuple(out) if len(set(lab)) == len(lab) else None


def pick(l, idx):
    k = len(l.axes)
    t = idx[len(idx) - k:] if k else ()
    return l.tab[tuple(0 if a == 1 or not isinstance(a, int) else i for a, i in zip(l.axes, t))]


def zipmap(ls, f):
    axes = align(ls)
    if axes is None:
        return TOP
    # a pointwise label must sit on the same axis in every operand
    for l in ls:
        for k, a in enumerate(l.axes):
            if not isinstance(a, int) and axes[len(axes) - len(l.axes) + k] != a:
                return TOP
    return build(axes, lambda i: f(*[pick(l, i) for l in ls]))


def lmap(l, f):
    return L(l.axes, {i: f(p) for i, p in l.tab.items()})


HALF = Fraction(1, 2)


def re_(p):
    return scale(add(p, conj(p)), HALF)


def im_(p):
    # (p - conj p) / 2i
    return mul(scale(sub(p, conj(p)), HALF), {((IM, 1),): Fraction(-1)})


def pw(p, e):
    c = e.get(()) if len(e) == 1 and () in e else (Fraction(0) if not e else None)
    if c is not None and c.denominator == 1 and abs(c) <= 8:
        return power(p, int(c))
    if c is not None and c.denominator == 2 and abs(c) <= 4:
        return power(sqrt(p), int(2 * c))
    return apply("pow", (), (p, e))


def maxp(I, a, b):
    if I.flags.get("alg_floors") == "off":
        # a floor that is not active
        ca, cb = deps(a), deps(b)
        if not atoms_of(b) or (not cb and ca):
            return a
        if not atoms_of(a) or (not ca and cb):
            return b
    if len(a) <= 1 and () in a and len(b) <= 1 and () in b:
        return a if a[()] >= b[()] else b
    x, y = sorted((canon(a), canon(b)))
    return apply("max", (), (dict(x), dict(y)), True, isnonneg(a) or isnonneg(b))


def minp(I, a, b):
    if I.flags.get("alg_floors") == "off":
        if not atoms_of(b):
            return a
        if not atoms_of(a):
            return b
    x, y = sorted((canon(a), canon(b)))
    return apply("min", (), (dict(x), dict(y)), True, isnonneg(a) and isnonneg(b))


UNARY = {"neg": lambda p: scale(p, -1), "negative": lambda p: scale(p, -1), "conj": conj, "conj_physical": conj, "resolve_conj": lambda p: p,
         "real": re_, "imag": im_, "abs": absolute, "absolute": absolute, "square": lambda p: mul(p, p), "sqrt": sqrt,
         "reciprocal": recip, "rsqrt": lambda p: recip(sqrt(p)), "positive": lambda p: p}
SAME = {"contiguous", "clone", "detach", "cpu", "cuda", "to", "type_as", "type", "float", "double", "requires_grad_", "resolve_conj", "resolve_neg",
        "nan_to_num_", "view_as", "as_tensor", "cfloat", "cdouble", "detach_", "asarray"}
BIN = {"add": add, "sub": sub, "subtract": sub, "mul": mul, "multiply": mul, "mult": mul, "pow": None, "div": None, "divide": None, "true_divide": None,
       "rsub": None, "rtruediv": None}
GENERIC = {"exp", "log", "log1p", "log10", "log2", "sin", "cos", "tanh", "sigmoid", "sgn", "sign", "angle", "relu", "softplus", "isnan", "isfinite", "isinf",
           "logical_not", "expm1", "floor", "ceil", "round", "atan2", "arctan2", "lt", "le", "gt", "ge", "eq", "ne", "lte", "gte", "noteq", "logical_and",
           "logical_or", "hypot", "floordiv", "floor_divide", "mod", "remainder"}


def binary(I, name, a, b):
    if a is TOP or b is TOP:
        return TOP
    if name in ("add", "sub", "subtract", "mul", "multiply", "mult"):
        return zipmap([a, b], BIN[name])
    if name in ("div", "divide", "true_divide", "truediv"):
        return zipmap([a, b], lambda x, y: mul(x, recip(y)))
    if name == "pow":
        return zipmap([a, b], pw)
    if name in ("maximum", "fmax"):
        return zipmap([a, b], lambda x, y: maxp(I, x, y))
    if name in ("minimum", "fmin"):
        return zipmap([a, b], lambda x, y: minp(I, x, y))
    if name in ("matmult", "matmul", "mm", "bmm", "mv"):
        return matmul(I, a, b)
    if name in GENERIC:
        return zipmap([a, b], lambda x, y: apply(name, (), (x, y)))
    return None


def clamp(I, l, lo, hi):
    if lo is not None:
        o = operand(I, lo)
        if o is TOP or l is TOP:
            return TOP
        l = zipmap([l, o], lambda x, y: maxp(I, x, y))
    if hi is not None and l is not TOP:
        o = operand(I, hi)
        if o is TOP:
            return TOP
        l = zipmap([l, o], lambda x, y: minp(I, x, y))
    return l


# ------------------------------------------------------------------ contraction
def product(I, ls, labs, outl):
    """contraction with one letter per axis"""
    kind = {}
    for l, lb in zip(ls, labs):
        if len(lb) != len(l.axes):
            return TOP
        for a, x in zip(l.axes, lb):
            b = kind.get(x, 1)
            if a == 1 and b != 1:
                continue
            if b != 1 and a != b:
                return TOP
            kind[x] = a
    for lb in labs:
        for x in set(lb):
            if lb.count(x) > 1 and not isinstance(kind[x], int):
                return TOP
    lab = [a for a in kind.values() if not isinstance(a, int)]
    if len(set(lab)) != len(lab):
        return TOP
    summed = [x for x in kind if x not in outl]
    ex = [x for x in summed if isinstance(kind[x], int)]
    pt = sorted(kind[x] for x in summed if not isinstance(kind[x], int))
    axes = [kind.get(x, 1) for x in outl]
    split = bool(I.flags.get("alg_split"))

    def one(idx):
        env = dict(zip(outl, idx))
        tot = {}
        for v in itertools.product(*[range(kind[x]) for x in ex]):
            env.update(zip(ex, v))
            t = ONE
            for l, lb in zip(ls, labs):
                t = mul(t, l.tab[tuple(0 if a == 1 or not isinstance(a, int) else env[x] for a, x in zip(l.axes, lb))])
                if not t:
                    break
            tot = add(tot, t)
        for x in pt:
            tot = sum_over(tot, x, split)
        return tot
    n = 1
    for a in axes:
        n *= a if isinstance(a, int) else 1
    if n > MAXENT:
        return TOP
    return build(axes, one)


def matmul(I, a, b):
    la, lb = len(a.axes), len(b.axes)
    if la == 0 or lb == 0:
        return TOP
    n = max(la, lb)
    bt = [("b", k) for k in range(max(n - 2, 0))]

    def lab(k, last):
        return bt[len(bt) - (k - len(last)):] + last if k > len(last) else last
    if la == 1 and lb == 1:
        return product(I, [a, b], [["k"], ["k"]], [])
    if la == 1:
        return product(I, [a, b], [["k"], lab(lb, ["k", "n"])], bt + ["n"])
    if lb == 1:
        return product(I, [a, b], [lab(la, ["m", "k"]), ["k"]], bt + ["m"])
    return product(I, [a, b], [lab(la, ["m", "k"]), lab(lb, ["k", "n"])], bt + ["m", "n"])


def einsum(I, eq, ls):
    eq = eq.replace(" ", "")
    ins, outs = eq.split("->") if "->" in eq else (eq, None)
    terms = ins.split(",")
    if len(terms) != len(ls):
        return TOP
    labs, ne = [], 0
    for t, l in zip(terms, ls):
        if "..." in t:
            k = len(l.axes) - len(t.replace("...", ""))
            if k < 0:
                return TOP
            ne = max(ne, k)
    for t, l in zip(terms, ls):
        if "..." in t:
            pre, post = t.split("...")
            k = len(l.axes) - len(pre) - len(post)
            labs.append(list(pre) + [("e", j) for j in range(ne - k, ne)] + list(post))
        else:
            labs.append(list(t))
    if outs is None:
        flat = [x for t in terms for x in t.replace("...", "")]
        outl = [("e", j) for j in range(ne)] + sorted(x for x in set(flat) if flat.count(x) == 1)
    elif "..." in outs:
        pre, post = outs.split("...")
        outl = list(pre) + [("e", j) for j in range(ne)] + list(post)
    else:
        outl = list(outs)
    return product(I, ls, labs, outl)


# ------------------------------------------------------------------ reductions
def reduce_dims(l, dim):
    n = len(l.axes)
    if dim is None:
        return list(range(n))
    if isinstance(dim, int):
        dim = (dim,)
    if not isinstance(dim, (tuple, list)) or not all(isinstance(d, int) for d in dim):
        return None
    return sorted(d % n for d in dim)


def reduction(I, name, l, dim, keepdim):
    ds = reduce_dims(l, dim)
    if ds is None or not isinstance(keepdim, bool):
        return None
    if name == "norm":
        l = lmap(l, lambda p: mul(p, conj(p)))
    axes = [(1 if k in ds else a) for k, a in enumerate(l.axes)]
    out = {}
    split = bool(I.flags.get("alg_split"))
    pts = sorted(l.axes[d] for d in ds if not isinstance(l.axes[d], int))
    if pts and name not in ("sum", "mean", "norm"):
        return None
    for idx in indices(axes):
        cells = []
        for v in itertools.product(*[range(l.axes[d]) if isinstance(l.axes[d], int) else (0,) for d in ds]):
            j = list(idx)
            for d, x in zip(ds, v):
                j[d] = x
            cells.append(l.tab[tuple(j)])
        if name in ("sum", "mean", "norm"):
            t = {}
            for c in cells:
                t = add(t, c)
            for x in pts:
                t = sum_over(t, x, split)
            if name == "mean":
                t = scale(t, Fraction(1, len(cells)))
                for x in pts:
                    t = mul(t, recip(LABELS[x]))
            if name == "norm":
                t = sqrt(t)
        elif name == "prod":
            t = ONE
            for c in cells:
                t = mul(t, c)
        else:
            cs = sorted({canon(c) for c in cells})
            t = dict(cs[0]) if len(cs) == 1 else apply(name, (), tuple(dict(c) for c in cs), nonneg=all(isnonneg(dict(c)) for c in cs))
        out[idx] = t
    r = L(axes, out)
    return r if keepdim else drop(r, ds)


def drop(l, ds):
    ds = set(ds)
    keep = [k for k in range(len(l.axes)) if k not in ds]
    return L([l.axes[k] for k in keep], {tuple(i[k] for k in keep): p for i, p in l.tab.items()})


# ------------------------------------------------------------------ views
def getitem(I, l, key, x):
    ids = list(key) if isinstance(key, tuple) else [key]
    if any(isinstance(k, (T, Unk, Flt, SymRep, bool)) for k in ids):
        return None
    used = sum(1 for k in ids if k is not None and k is not Ellipsis)
    n = len(l.axes)
    if used > n:
        return None
    if not any(k is Ellipsis for k in ids):
        ids = ids + [Ellipsis]
    p = ids.index(Ellipsis)
    ids = ids[:p] + [slice(None)] * (n - used) + ids[p + 1:]
    axes, maps, d = [], [], 0      # maps: per source axis a function of the new index
    src = []
    for k in ids:
        if k is None:
            axes.append(1)
            continue
        a = l.axes[d]
        if isinstance(k, slice):
            full = k.start in (None, 0) and k.stop is None and k.step in (None, 1)
            if isinstance(a, int):
                if not all(v is None or isinstance(v, int) for v in (k.start, k.stop, k.step)):
                    return None
                r = list(range(*k.indices(a)))
                src.append(("map", len(axes), r))
                axes.append(len(r))
            elif full:
                src.append(("keep",))
                axes.append(a)
            else:
                s = lower(x.shape[d].size)
                ns = slice_size(I, k, s)
                if ns is None:
                    return None
                lab = repr(ns)
                if lab != a:
                    LABELS[lab] = size_poly(ns)
                src.append(("sl", a, (repr(vnof(k.start)), repr(vnof(k.step)), lab)))
                axes.append(lab)
        elif isinstance(k, (list, tuple)) and all(isinstance(v, int) and not isinstance(v, bool) for v in k):
            if not isinstance(a, int):
                return None
            src.append(("map", len(axes), [v % a for v in k]))
            axes.append(len(k))
        elif isinstance(k, (int, Poly)):
            if isinstance(a, int):
                if not isinstance(k, int) or not -a <= k < a:
                    return None
                src.append(("at", k % a))
            else:
                src.append(("ix", a, repr(vnof(k))))
        else:
            return None
        d += 1
    if sum(1 for k in ids if isinstance(k, (list, tuple))) > 1:
        return None
    lab = [a for a in axes if not isinstance(a, int)]
    if len(set(lab)) != len(lab):
        return None

    def one(i):
        j = []
        for s in src:
            j.append(s[2][i[s[1]]] if s[0] == "map" else s[1] if s[0] == "at" else 0)
        p_ = l.tab[tuple(j)]
        for s in src:
            if s[0] in ("sl", "ix"):
                p_ = index_atoms(p_, s[0], s[1], s[2])
        return p_
    return build(axes, one)


def slice_size(I, k, s):
    if k.step not in (None, 1):
        return None
    a, b = k.start, k.stop
    if not all(v is None or isinstance(v, (int, Poly)) for v in (a, b)):
        return None
    a = 0 if a is None else a
    b = s if b is None else b
    P_ = Poly.of
    if isinstance(a, int) and a < 0:
        a = lower(P_(s) + a)
    if isinstance(b, int) and b < 0:
        b = lower(P_(s) + b)
    return lower(P_(b) - P_(a))


def setitem(I, l, key, v, x):
    """entries of x after x[key] = v"""
    ids = list(key) if isinstance(key, tuple) else [key]
    n = len(l.axes)
    if any(isinstance(k, (T, Unk, Flt, SymRep, bool)) or k is None for k in ids):
        return TOP
    if not any(k is Ellipsis for k in ids):
        ids = ids + [Ellipsis]
    used = sum(1 for k in ids if k is not Ellipsis)
    p = ids.index(Ellipsis)
    ids = ids[:p] + [slice(None)] * (n - used) + ids[p + 1:]
    if len(ids) != n or v is TOP:
        return TOP
    sel, axes = [], []
    for k, a in zip(ids, l.axes):
        if isinstance(k, slice):
            full = k.start in (None, 0) and k.stop is None and k.step in (None, 1)
            if isinstance(a, int):
                if not all(y is None or isinstance(y, int) for y in (k.start, k.stop, k.step)):
                    return TOP
                r = list(range(*k.indices(a)))
                sel.append(r)
                axes.append(len(r))
            elif full:
                sel.append([0])
                axes.append(a)
            else:
                return TOP
        elif isinstance(k, int) and isinstance(a, int) and -a <= k < a:
            sel.append(k % a)
        elif isinstance(k, (list, tuple)) and isinstance(a, int) and all(isinstance(y, int) for y in k):
            sel.append([y % a for y in k])
            axes.append(len(k))
        else:
            return TOP
    va = align([v, L(axes, {})])
    if va is None or len(va) != len(axes) or va != tuple(axes):
        if len(v.axes) > len(axes):
            # leading axes of size one
            if any(a != 1 for a in v.axes[:len(v.axes) - len(axes)]):
                return TOP
            k = len(v.axes) - len(axes)
            v = L(v.axes[k:], {i[k:]: q for i, q in v.tab.items()})
            va = align([v, L(axes, {})])
        if va is None or va != tuple(axes):
            return TOP
    tab = dict(l.tab)
    for i in indices(axes):
        q = iter(i)
        j = []
        for s in sel:
            j.append(s[next(q)] if isinstance(s, list) else s)
        tab[tuple(j)] = pick(v, i)
    return L(l.axes, tab)


def regroup(l, axes):
    """reshape to the given axes"""
    a = [(k, x) for k, x in enumerate(l.axes) if x != 1]
    b = [(k, x) for k, x in enumerate(axes) if x != 1]
    groups = []
    i = j = 0
    while i < len(a) or j < len(b):
        if i >= len(a) or j >= len(b):
            return TOP
        if not isinstance(a[i][1], int) or not isinstance(b[j][1], int):
            if a[i][1] != b[j][1]:
                return TOP
            i, j = i + 1, j + 1
            continue
        ga, gb = [a[i]], [b[j]]
        pa, pb = a[i][1], b[j][1]
        i, j = i + 1, j + 1
        while pa != pb:
            if pa < pb:
                if i >= len(a) or not isinstance(a[i][1], int):
                    return TOP
                pa *= a[i][1]
                ga.append(a[i])
                i += 1
            else:
                if j >= len(b) or not isinstance(b[j][1], int):
                    return TOP
                pb *= b[j][1]
                gb.append(b[j])
                j += 1
        groups.append((ga, gb))

    def one(idx):
        src = [0] * len(l.axes)
        for ga, gb in groups:
            f = 0
            for k, n in gb:
                f = f * n + idx[k]
            for k, n in reversed(ga):
                src[k] = f % n
                f //= n
        return l.tab[tuple(src)]
    return build(axes, one)


def permute(l, perm):
    return L([l.axes[p] for p in perm], {tuple(i[p] for p in perm): v for i, v in l.tab.items()})


def expand(l, axes):
    if len(axes) < len(l.axes):
        return TOP
    k = len(axes) - len(l.axes)
    for a, b in zip(l.axes, axes[k:]):
        if a != b and a != 1:
            return TOP
    return build(axes, lambda i: pick(l, i))


VIEWS = {"getitem", "real", "imag", "transpose", "permute", "reshape", "view", "unsqueeze", "squeeze", "flatten", "movedim", "moveaxis", "t", "T", "mT", "H", "mH",
         "expand", "broadcast_to", "expand_as", "view_as_real", "view_as_complex", "conj", "diagonal", "select", "narrow", "swapaxes", "swapdims", "adjoint",
         "unflatten", "detach", "contiguous", "to", "type_as", "broadcast_tensors", "split", "chunk", "unbind", "tensor_split", "as_strided", "unfold", "cpu", "float", "double"}


def transfer(I, name, args, kwargs, out, pre):
    """entries of the result, None when the operation has no axioms"""
    def ln(x):
        if isinstance(x, T):
            return pre.get(id(x), TOP)
        return operand(I, x)
    x = args[0] if args else kwargs.get("input", kwargs.get("self"))
    a = ln(x) if isinstance(x, (T, int, float, complex, Poly, Flt)) else TOP
    axes = axes_of(out)
    if axes is None:
        return TOP
    if name in UNARY and isinstance(x, T):
        if name in ("sqrt", "rsqrt") and x.dtype is not None and x.dtype.kind == "c":
            return None
        return TOP if a is TOP else lmap(a, UNARY[name])
    if name in ("sigmoid", "exp", "log", "log1p", "log10", "sgn", "sign", "angle", "tanh", "relu") and isinstance(x, T):
        return TOP if a is TOP else lmap(a, lambda p: apply(name, (), (p,)))
    if name in SAME:
        return a
    if name in BIN or name in ("maximum", "minimum", "fmax", "fmin", "truediv", "matmult", "matmul", "mm", "bmm", "mv") or name in GENERIC:
        y = args[1] if len(args) > 1 else kwargs.get("other", kwargs.get("exponent", kwargs.get("mat2")))
        if y is None:
            return None
        b = ln(y)
        al = kwargs.get("alpha")
        if al is not None and b is not TOP:
            b = binary(I, "mul", b, operand(I, al))
        if name == "rsub":
            return binary(I, "sub", b, a)
        return binary(I, name, a, b)
    if name in ("clamp", "clip", "clamp_min", "clamp_max"):
        lo = args[1] if len(args) > 1 else kwargs.get("min")
        hi = args[2] if len(args) > 2 else kwargs.get("max")
        if name == "clamp_max":
            lo, hi = None, lo if lo is not None else kwargs.get("max")
        return clamp(I, a, lo, hi)
    if name == "einsum":
        ops = args[1:]
        if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
            ops = ops[0]
        ls = [ln(o) for o in ops]
        return TOP if any(l is TOP for l in ls) or not isinstance(args[0], str) else einsum(I, args[0], ls)
    if name in ("dot", "vdot", "inner", "outer", "ger", "baddbmm"):
        ls = [ln(o) for o in args]
        if any(l is TOP for l in ls):
            return TOP
        if name == "vdot":
            ls[0] = lmap(ls[0], conj)
        if name in ("dot", "vdot"):
            return product(I, ls, [["k"], ["k"]], [])
        if name in ("outer", "ger"):
            return product(I, ls, [["m"], ["n"]], ["m", "n"])
        return None
    if name in ("sum", "mean", "prod", "amax", "amin", "max", "min", "norm", "linalg_norm", "vector_norm", "linalg_vector_norm", "std", "var") and isinstance(x, T):
        if a is TOP:
            return TOP
        dim = kwargs.get("dim", args[1] if len(args) > 1 and name not in ("norm", "linalg_norm", "vector_norm", "linalg_vector_norm") else None)
        kd = kwargs.get("keepdim", args[2] if len(args) > 2 and name not in ("norm", "linalg_norm", "vector_norm", "linalg_vector_norm") else False)
        if "norm" in name:
            o = kwargs.get("ord", kwargs.get("p", args[1] if len(args) > 1 else None))
            if len(args) > 2:
                dim = args[2]
            if len(args) > 3:
                kd = args[3]
            if o not in (None, 2, 2.0, "fro") or (name == "linalg_norm" and isinstance(dim, (tuple, list)) and len(dim) == 2 and o not in (None, "fro")):
                return None
            return reduction(I, "norm", a, dim, kd)
        if name in ("std", "var"):
            return None
        return reduction(I, {"max": "amax", "min": "amin"}.get(name, name), a, dim, kd)
    if name in ("view_as_real",):
        if a is TOP:
            return TOP
        return build(a.axes + (2,), lambda i: re_(a.tab[i[:-1]]) if i[-1] == 0 else im_(a.tab[i[:-1]]))
    if name == "view_as_complex":
        if a is TOP or a.axes[-1] != 2:
            return TOP
        return build(a.axes[:-1], lambda i: add(a.tab[i + (0,)], mul(a.tab[i + (1,)], var(IM))))
    if name in ("complex", "view_complex"):
        b = ln(args[1])
        return TOP if a is TOP or b is TOP else zipmap([a, b], lambda p, q: add(p, mul(q, var(IM))))
    if name in ("transpose", "swapaxes", "swapdims", "t", "mT", "T", "permute", "movedim", "moveaxis", "H", "mH", "adjoint"):
        if a is TOP:
            return TOP
        n = len(a.axes)
        p = list(range(n))
        if name in ("transpose", "swapaxes", "swapdims"):
            d = list(args[1:]) + [kwargs[k] for k in ("dim0", "dim1", "axis0", "axis1") if k in kwargs]
            if len(d) != 2 or not all(isinstance(v, int) for v in d):
                return None
            p[d[0] % n], p[d[1] % n] = p[d[1] % n], p[d[0] % n]
        elif name in ("mT", "mH", "H", "adjoint"):
            p[-1], p[-2] = p[-2], p[-1]
        elif name in ("t", "T"):
            p = p[::-1]
        elif name == "permute":
            d = args[1:] or (kwargs.get("dims"),)
            if len(d) == 1 and isinstance(d[0], (tuple, list)):
                d = d[0]
            if not all(isinstance(v, int) for v in d):
                return None
            p = [v % n for v in d]
        else:
            s = args[1] if len(args) > 1 else kwargs.get("source")
            d = args[2] if len(args) > 2 else kwargs.get("destination")
            s = [s] if isinstance(s, int) else s
            d = [d] if isinstance(d, int) else d
            if not isinstance(s, (list, tuple)) or not isinstance(d, (list, tuple)):
                return None
            s, d = [v % n for v in s], [v % n for v in d]
            rest = [k for k in range(n) if k not in s]
            p = [None] * n
            for u, v in zip(s, d):
                p[v] = u
            it = iter(rest)
            p = [next(it) if v is None else v for v in p]
        r = permute(a, p)
        return lmap(r, conj) if name in ("mH", "H", "adjoint") else r
    if name in ("unsqueeze", "squeeze", "reshape", "view", "flatten", "unflatten", "view_as", "reshape_as", "ravel"):
        return TOP if a is TOP else regroup(a, axes)
    if name in ("expand", "broadcast_to", "expand_as"):
        return TOP if a is TOP else expand(a, axes)
    if name in ("repeat", "tile", "repeat_interleave"):
        if a is TOP:
            return TOP
        off = len(axes) - len(a.axes)
        if off < 0 or any(x != 1 and x != y for x, y in zip(a.axes, axes[off:])):
            return None
        return expand(a, axes)
    if name in ("roll",) and isinstance(x, T):
        sh, d = kwargs.get("shifts", args[1] if len(args) > 1 else None), kwargs.get("dims", args[2] if len(args) > 2 else None)
        if a is TOP:
            return TOP
        if isinstance(sh, (tuple, list)) and isinstance(d, (tuple, list)) and len(sh) == len(d) == 1:
            sh, d = sh[0], d[0]
        if not isinstance(sh, int) or not isinstance(d, int) or not isinstance(a.axes[d], int):
            return None
        d %= len(a.axes)
        m = a.axes[d]
        return build(axes, lambda i: a.tab[i[:d] + ((i[d] - sh) % m,) + i[d + 1:]])
    if name in ("vecdot", "linalg_vecdot"):
        b = ln(args[1])
        d = kwargs.get("dim", args[2] if len(args) > 2 else -1)
        if a is TOP or b is TOP:
            return TOP
        return reduction(I, "sum", zipmap([lmap(a, conj), b], mul), d, False)
    if name in ("addcmul", "addcdiv"):
        ls = [ln(o) for o in args[:3]]
        v = operand(I, kwargs.get("value", 1))
        if len(ls) < 3 or TOP in ls or v is TOP:
            return None
        return binary(I, "add", ls[0], binary(I, "mul", v, binary(I, "mul" if name == "addcmul" else "div", ls[1], ls[2])))
    if name in ("select", "narrow"):
        if a is TOP:
            return TOP
        d = args[1] if len(args) > 1 else kwargs.get("dim")
        key = [slice(None)] * len(a.axes)
        if name == "select":
            key[d] = args[2] if len(args) > 2 else kwargs.get("index")
        else:
            s, m = args[2], args[3]
            key[d] = slice(s, s + m)
        return getitem(I, a, tuple(key), x)
    if name in ("stack", "cat", "concat", "concatenate", "hstack", "vstack"):
        ls = [ln(e) for e in x] if isinstance(x, (list, tuple)) and all(isinstance(e, T) for e in x) else None
        if ls is None or any(l is TOP for l in ls):
            return TOP
        d = kwargs.get("dim", args[1] if len(args) > 1 else 0)
        if not isinstance(d, int) or name in ("hstack", "vstack"):
            return None
        n = len(axes)
        d %= n
        if name == "stack":
            if any(l.axes != ls[0].axes for l in ls):
                return TOP
            return build(axes, lambda i: ls[i[d]].tab[i[:d] + i[d + 1:]])
        if all(isinstance(l.axes[d], int) for l in ls):
            off = [(k, j) for k, l in enumerate(ls) for j in range(l.axes[d])]
            if len(off) != axes[d]:
                return TOP
            return build(axes, lambda i: ls[off[i[d]][0]].tab[i[:d] + (off[i[d]][1],) + i[d + 1:]])
        if all(l.axes[:d] == ls[0].axes[:d] and l.axes[d + 1:] == ls[0].axes[d + 1:] for l in ls):
            par = tuple(l.axes[d] for l in ls)

            def joined(i):
                ps = [l.tab[i[:d] + (0,) + i[d + 1:]] for l in ls]
                dd = frozenset()
                for q in ps:
                    dd |= deps(q)
                dd = (dd - {z for z in par if not isinstance(z, int)}) | {axes[d]}
                j = atom(("catp", par) + tuple(canon(q) for q in ps), dd, all(isreal(q) for q in ps), all(isnonneg(q) for q in ps), any(weak(q) for q in ps), max(depth(q) for q in ps))
                NAMED[j] = (("catp", par), tuple(ps))
                return var(j)
            return build(axes, joined)
        return None
    if name == "eye":
        return build(axes, lambda i: ONE if i[0] == i[1] else ZERO) if len(axes) == 2 and all(isinstance(z, int) for z in axes) else None
    if name in ("zeros", "zeros_like", "new_zeros"):
        return build(axes, lambda i: ZERO)
    if name in ("ones", "ones_like", "new_ones"):
        return build(axes, lambda i: ONE)
    if name in ("full", "full_like", "new_full"):
        v = args[-1] if name != "full" or len(args) > 1 else kwargs.get("fill_value")
        v = kwargs.get("fill_value", v)
        s = scalar(v)
        return None if s is None else build(axes, lambda i: s)
    if name in ("tensor", "scalar_tensor"):
        s = scalar(x)
        return build(axes, lambda i: s) if s is not None and axes == () else None
    if name == "diag_embed":
        if a is TOP:
            return TOP
        if len(args) > 1 or kwargs or not isinstance(a.axes[-1], int):
            return None
        return build(axes, lambda i: a.tab[i[:-1]] if i[-1] == i[-2] else ZERO)
    if name == "diagonal":
        if a is TOP:
            return TOP
        d1, d2 = kwargs.get("dim1", args[2] if len(args) > 2 else 0), kwargs.get("dim2", args[3] if len(args) > 3 else 1)
        off = kwargs.get("offset", args[1] if len(args) > 1 else 0)
        n = len(a.axes)
        if off or not isinstance(d1, int) or not isinstance(d2, int) or not isinstance(a.axes[d1], int) or not isinstance(a.axes[d2], int):
            return None
        rest = [k for k in range(n) if k not in (d1 % n, d2 % n)]

        def dg(i):
            j = [0] * n
            for k, v in zip(rest, i[:-1]):
                j[k] = v
            j[d1 % n] = j[d2 % n] = i[-1]
            return a.tab[tuple(j)]
        return build(axes, dg)
    if name in ("flip",):
        if a is TOP:
            return TOP
        d = kwargs.get("dims", args[1:])
        if len(d) == 1 and isinstance(d[0], (tuple, list)):
            d = d[0]
        n = len(a.axes)
        d = [v % n for v in d]
        if not all(isinstance(a.axes[v], int) for v in d):
            return None
        return build(axes, lambda i: a.tab[tuple(a.axes[k] - 1 - v if k in d else v for k, v in enumerate(i))])
    if name in ("trace",):
        return None
    if name == "where" and len(args) == 3:
        c, p, q = (ln(z) for z in args)
        if TOP in (c, p, q):
            return TOP
        if I.flags.get("alg_floors") == "off":
            def wh(c_, p_, q_):
                if set(p_) <= {()} and not set(q_) <= {()}:
                    return q_
                if set(q_) <= {()} and not set(p_) <= {()}:
                    return p_
                if not deps(p_) and deps(q_):
                    return q_
                if not deps(q_) and deps(p_):
                    return p_
                return apply("where", (), (c_, p_, q_))
            return zipmap([c, p, q], wh)
        return zipmap([c, p, q], lambda *z: apply("where", (), z))
    if name in ("linalg_solve", "solve"):
        b = ln(args[1] if len(args) > 1 else kwargs.get("B"))
        return TOP if a is TOP or b is TOP else solve(I, a, b, axes)
    if name in ("inverse", "linalg_inv", "inv"):
        if a is TOP or not isinstance(a.axes[-1], int):
            return TOP
        n = a.axes[-1]
        return solve(I, a, build((n, n), lambda i: ONE if i[0] == i[1] else ZERO), axes)
    return None


def solve(I, a, b, axes):
    n = a.axes[-1]
    if not isinstance(n, int) or a.axes[-2] != n:
        return None
    vec = len(b.axes) == 1 or len(b.axes) == len(a.axes) - 1 and len(axes) == len(b.axes)
    out = {}
    for i in indices(axes):
        # the matrix and the column of the right hand side of this entry
        lead = i[:-1] if vec else i[:-2]
        k = None if vec else i[-1]

        def at(l, own, tail):
            ax = l.axes[:len(l.axes) - own]
            j = lead[len(lead) - len(ax):] if ax else ()
            return l.tab[tuple(0 if x == 1 or not isinstance(x, int) else y for x, y in zip(ax, j)) + tail]
        A = [[at(a, 2, (r, c)) for c in range(n)] for r in range(n)]
        B = [at(b, 1, (r,)) if vec else at(b, 2, (r, k if b.axes[-1] != 1 else 0)) for r in range(n)]
        out[i] = solve_entry(A, B, i[-1] if vec else i[-2])
    return L(axes, out)


def solve_entry(A, B, r):
    flat = [p for row in A for p in row] + list(B)
    key = ("solve", INTERN.setdefault(("S", tuple(canon(p) for p in flat)), len(INTERN)), r)
    d = frozenset()
    for p in flat:
        d |= deps(p)
    if not any(B):
        return {}
    j = atom(key, d, all(isreal(p) for p in flat), False, any(weak(p) for p in flat), max(depth(p) for p in flat) + 1)
    NAMED[j] = (("solve",), (A, B, r))
    return var(j)


# ------------------------------------------------------------------ wrapping
def tensors_in(xs, out=None):
    out = [] if out is None else out
    for x in xs:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            tensors_in(x, out)
        elif isinstance(x, dict):
            tensors_in(x.values(), out)
    return out


def root_of(t):
    n = 0
    while t.view_of is not None and n < 30:
        t, n = t.view_of, n + 1
    return t


def assign(I, name, args, kwargs, r, pre, keys):
    res = [r] if isinstance(r, T) else [x for x in r if isinstance(x, T)] if isinstance(r, (tuple, list)) else []
    for k, t in enumerate(res):
        try:
            if name in ("max", "min", "cummax", "median", "sort", "topk", "kthvalue") and len(res) > 1:
                l = transfer(I, name, args, kwargs, t, pre) if k == 0 and name in ("max", "min") else None
            elif name in ("broadcast_tensors",):
                s = pre.get(id(args[k]), TOP) if k < len(args) else TOP
                l = TOP if s is TOP or axes_of(t) is None else expand(s, axes_of(t))
            elif name in ("unbind", "split", "chunk", "tensor_split", "split_with_sizes"):
                l = piece(args, kwargs, name, k, res, pre)
            elif len(res) > 1 or not isinstance(r, T):
                l = None
            else:
                l = transfer(I, name, args, kwargs, t, pre)
        except TooBig:
            l = None
        except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError):
            if os.environ.get("TV_TRACE"):
                traceback.print_exc()
            l = TOP
        if l is None:
            kk, w = keys()
            l = opaque(t, ("op", name, kk, k), (), 1 + pre["depth"](), w)
        if l is not TOP and axes_of(t) != l.axes:
            l = TOP
        if l is not TOP:
            if any(t is z for z in tensors_in(list(args))):
                old = t.lin
                l = L(l.axes, l.tab)
                if isinstance(old, L):
                    l.root, l.ver = old.root, old.ver
            else:
                l = L(l.axes, l.tab)
            b = root_of(t)
            if b is not t or l.root is not None:
                l.root = id(b)
                I.flags.setdefault("alg_keep", []).append(b)
                l.ver = I.flags.setdefault("alg_ver", {}).get(l.root, 0)
        t.lin = l


def piece(args, kwargs, name, k, res, pre):
    """entries of one of the parts a tensor is cut into"""
    a = pre.get(id(args[0]), TOP) if args else TOP
    if a is TOP:
        return TOP
    n = len(a.axes)
    d = kwargs.get("dim", args[(1 if name == "unbind" else 2)] if len(args) > (1 if name == "unbind" else 2) else 0)
    if not isinstance(d, int) or not isinstance(a.axes[d], int):
        return None
    d %= n
    axes = axes_of(res[k])
    if name == "unbind":
        if len(res) != a.axes[d]:
            return TOP
        return build(axes, lambda i: a.tab[i[:d] + (k,) + i[d:]])
    w = [axes_of(t) for t in res]
    if any(x is None or not isinstance(x[d], int) for x in w) or sum(x[d] for x in w) != a.axes[d]:
        return None
    o = sum(x[d] for x in w[:k])
    return build(axes, lambda i: a.tab[i[:d] + (o + i[d],) + i[d + 1:]])


def prepare(I, args, kwargs):
    pre = {}
    ts = tensors_in(list(args) + list(kwargs.values()))
    for t in ts:
        pre[id(t)] = lin_of(I, t)
    memo = []

    def dp():
        return max([depth(p) for t in ts if pre[id(t)] is not TOP for p in pre[id(t)].tab.values()], default=0)
    pre["depth"] = dp

    def keys():
        if not memo:
            rows = []
            w = False

            def one(x):
                nonlocal w
                if isinstance(x, T):
                    l = pre[id(x)]
                    if l is TOP:
                        w = True
                        return ("?", repr(x.vn))
                    w = w or l.weak()
                    return ("L", l.canon())
                if isinstance(x, (list, tuple)):
                    return tuple(one(y) for y in x)
                if isinstance(x, Unk):
                    w = True
                return repr(vnof(x))
            for x in args:
                rows.append(one(x))
            for k in sorted(kwargs):
                rows.append((k, one(kwargs[k])))
            memo.append((tuple(rows), w))
        return memo[0]
    return pre, keys


def touched(I, x):
    """the tensor was written: views of it are out of date"""
    b = root_of(x)
    v = I.flags.setdefault("alg_ver", {})
    v[id(b)] = v.get(id(b), 0) + 1
    I.flags.setdefault("alg_keep", []).append(b)
    if isinstance(x.lin, L):
        x.lin.root, x.lin.ver = id(b), v[id(b)]


def wrapper(f, how):
    def g(I, *a, **k):
        fl = I.flags
        if not fl.get("alg") or fl.get("alg_in"):
            return f(I, *a, **k)
        if how == "op":
            name, args, kwargs = a[0], list(a[1]), dict(a[2])
        elif how == "bin":
            name, args, kwargs = a[0].lower(), [a[1], a[2]], {}
        elif how in ("get", "set"):
            name, args, kwargs = how, [a[0]], {}
        else:
            name, args, kwargs = "to", [a[0]], {}
        pre, keys = prepare(I, args, kwargs)
        if how == "set":
            val = operand(I, a[2])
        fl["alg_in"] = True
        try:
            r = f(I, *a, **k)
        finally:
            fl["alg_in"] = False
        if how == "get":
            l = pre[id(a[0])]
            if isinstance(r, T):
                try:
                    l = TOP if l is TOP else getitem(I, l, a[1], a[0])
                except TooBig:
                    l = TOP
                if l is None:
                    kk, w = key_of(I, a[1])
                    l = opaque(r, ("op", "getitem", keys()[0], kk), (), 1 + pre["depth"](), w or keys()[1])
                if l is not TOP and axes_of(r) != l.axes:
                    l = TOP
                if l is not TOP:
                    b = root_of(r)
                    if b is not r:
                        l = L(l.axes, l.tab)
                        l.root, l.ver = id(b), fl.setdefault("alg_ver", {}).get(id(b), 0)
                        fl.setdefault("alg_keep", []).append(b)
                r.lin = l
            return r
        if how == "set":
            l = pre[id(a[0])]
            a[0].lin = TOP if l is TOP or val is TOP else setitem(I, l, a[1], val, a[0])
            touched(I, a[0])
            return r
        assign(I, name, args, kwargs, r, pre, keys)
        return r
    return g


def wrapper_inplace(f):
    def g(I, *a, **k):
        fl = I.flags
        if not fl.get("alg") or fl.get("alg_in"):
            return f(I, *a, **k)
        x = a[1][0] if isinstance(a[1], list) else a[1]
        if isinstance(a[1], list) and a[0][:-1] in ("fill", "zero"):
            # x.zero_(), x.fill_(v)
            fl["alg_in"] = True
            try:
                r = f(I, *a, **k)
            finally:
                fl["alg_in"] = False
            s = const(0) if a[0] == "zero_" else scalar(a[1][1])
            ax = axes_of(x)
            x.lin = TOP if s is None or ax is None else build(ax, lambda i: s)
        else:
            r = f(I, *a, **k)
        touched(I, x)
        return r
    return g


import os
import traceback

def wrapper_num(f):
    def g(I, op, a, b):
        r = f(I, op, a, b)
        if isinstance(r, Flt):
            float_op(op, a, b, r)
        return r
    return g


INSTALLED = False


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    TO.call_op = wrapper(TO.call_op, "op")
    TO.convert = wrapper(TO.convert, "conv")
    LB.flt_op = wrapper_num(LB.flt_op)
    LB.int_op = wrapper_num(LB.int_op)
    O.binop = wrapper(O.binop, "bin")
    O.getitem = wrapper(O.getitem, "get")
    O.setitem = wrapper(O.setitem, "set")
    O.inplace_bin = wrapper_inplace(O.inplace_bin)
    TO.call_inplace = wrapper_inplace(TO.call_inplace)


# ------------------------------------------------------------------ deciding
class Undecided(Exception):
    pass


NF = {}
MODULUS = {}      # root atom: the real polynomial of which it is the absolute value
SUBST = {}
LIMIT = 60000


def normal(p, solves=True):
    """the same value with every sum taken term by term and every solve written out"""
    r = {}
    for m, c in p.items():
        t = {(): c}
        for i, e in m:
            t = mul(t, power_nf(i, e, solves))
        r = add(r, t)
        if len(r) > LIMIT:
            raise Undecided("size")
    return r


def power_nf(i, e, solves):
    key = (i, e, solves)
    r = NF.get(key)
    if r is None:
        q = atom_nf(i, solves)
        if q is None:
            r = {((i, e),): Fraction(1)}
        else:
            r = power(q, e)
        NF[key] = r
    return r


def atom_nf(i, solves):
    """normal form of an atom; None when it is its own"""
    k = ATOMS[i][0]
    if i in SUBST:
        return normal(SUBST[i], solves)
    if i in SUMS:
        l, q = SUMS[i]
        return sum_over(normal(q, solves), l, True)
    if k[0] == "poly":
        return normal(NAMED[i][1][0], solves)
    if i in SQ:
        return sqrt(normal(SQ[i], solves))
    if k[0] == "solve":
        if not solves:
            return None
        A, B, r = NAMED[i][1]
        if solves == "small" and len(A) > 2:
            return None
        return cramer(A, B, r, solves)
    if k[0] == "cj":
        q = atom_nf(k[1], solves)
        return None if q is None else conj(q)
    return None


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = {}
    for c in range(n):
        if M[0][c]:
            t = mul(M[0][c], det([row[:c] + row[c + 1:] for row in M[1:]]))
            r = add(r, t, 1 if c % 2 == 0 else -1)
    return r


def cramer(A, B, r, solves=True):
    n = len(A)
    if n > 2:
        raise Undecided("solve of size %d" % n)
    A = [[normal(p, solves) for p in row] for row in A]
    B = [normal(p, solves) for p in B]
    num = det([[B[k] if c == r else A[k][c] for c in range(n)] for k in range(n)])
    return mul(num, recip(det(A)))


def clear(p):
    """p times a common denominator of its reciprocals of polynomials"""
    for _ in range(60):
        ids = [i for i in atoms_of(p) if ATOMS[i][0][0] == "poly" or i in PID and any(j == i and e < 0 for m in p for j, e in m)]
        if not ids:
            return p
        i = max(ids, key=lambda z: (ATOMS[z][5], z not in PID, len(NAMED[z][1][0])))
        if i in PID:
            lo = min(e for m in p for j, e in m if j == i)
            p = mul(p, {((i, -lo),): Fraction(1)}) if -lo == 1 else mul(mul(p, var(i)), {((i, -lo - 1),): Fraction(1)})
            continue
        q = NAMED[i][1][0]
        lo = min(e for m in p for j, e in m if j == i)
        pw_ = {0: ONE}
        groups = {}
        for m, c in p.items():
            e = next((e for j, e in m if j == i), 0)
            groups.setdefault(e, {})[tuple(x for x in m if x[0] != i)] = c
        r = {}
        for e, g in groups.items():
            k = e - lo
            if k not in pw_:
                pw_[k] = power(q, k)
            r = add(r, mul(g, pw_[k]))
            if len(r) > LIMIT:
                raise Undecided("size")
        p = r
    raise Undecided("reciprocals")


REACH, SURE = {}, {}
MOVES = ("pad", "as_strided", "unfold", "roll")


def frame_level(i):
    """inputs, their conjugates, slices and delayed versions, answers of unknown models"""
    k = ATOMS[i][0]
    if k[0] in ("in", "model"):
        return True
    if k[0] == "cj":
        return frame_level(k[1])
    if k[0] in ("sl", "ix"):
        return frame_level(k[-1])
    if k[0] == "op" and k[1] in MOVES:
        return not ATOMS[i][4]
    return False


def reach(i):
    """the independent quantities an atom depends on: inputs at its own index, moments (sums of a product of inputs)"""
    r = REACH.get(i)
    if r is not None:
        return r
    k = ATOMS[i][0]
    if k[0] in ("size", "i", "const"):
        r = frozenset()
    elif frame_level(i) or k[0] == "flt":
        r = frozenset([base_of(i)])
    elif i in SUMS:
        l, q = SUMS[i]
        r = set()
        for m in q:
            own = tuple(sorted((base_of(j), e) for j, e in m if frame_level(j)))
            if own:
                r.add(("moment", own))
            for j, e in m:
                if not frame_level(j):
                    r |= reach(j)
        r = frozenset(r)
    elif i in SQ:
        r = reach_all(SQ[i])
    elif k[0] == "poly":
        r = reach_all(NAMED[i][1][0])
    elif k[0] == "solve":
        A, B, _ = NAMED[i][1]
        r = frozenset().union(*[reach_all(p) for row in A for p in row], *[reach_all(p) for p in B])
    elif k[0] == "cj":
        r = mirrored(reach(k[1]))
    elif eigen_operand(i) is not None:
        REACH[i] = frozenset([("any",)])
        r = frozenset().union(*[reach_all(q) for q in eigen_operand(i).tab.values()])
    else:
        r = frozenset([("any",)])
    REACH[i] = r
    return r


def base_of(i):
    """an input and its conjugate are independent of each other, its slices are not"""
    return i


def eigen_operand(i):
    """the matrix of which the atom is a component of an eigenvector or an eigenvalue"""
    k = ATOMS[i][0]
    if k[0] == "op" and k[1] in EIGEN and isinstance(k[2], tuple) and isinstance(k[2][0], tuple) and k[2][0][0] == "L":
        return REV.get(k[2][0][1])
    return None


def mirror(i):
    (m, _), = conj_atom(i).items()
    return m[0][0]


def mirrored(tokens):
    """the quantities a conjugate depends on: an input and its conjugate count as independent of each other"""
    out = set()
    for g in tokens:
        if isinstance(g, int):
            out.add(mirror(g))
        elif g[0] == "moment":
            out.add(("moment", tuple(sorted((mirror(j), e) for j, e in g[1]))))
        else:
            out.add(g)
    return frozenset(out)


def reach_all(p):
    r = frozenset()
    for i in atoms_of(p):
        r |= reach(i)
    return r


def free_atom(i):
    """a moment or an input: a quantity that can take any value whatever the other ones are"""
    if ATOMS[i][4]:
        return False
    if frame_level(i):
        return True
    if i in SUMS:
        l, q = SUMS[i]
        if len(q) != 1:
            return False
        (m, c), = q.items()
        # a product of inputs, or the total of a moment over another axis
        return all(frame_level(j) for j, e in m) or len(m) == 1 and m[0][1] == 1 and m[0][0] in SUMS and free_atom(m[0][0])
    return ATOMS[i][0][0] == "size"


DEP = {}


def dep_sure(i):
    """independent quantities on which the atom certainly depends"""
    r = DEP.get(i)
    if r is not None:
        return r
    DEP[i] = frozenset()
    k = ATOMS[i][0]
    r = set()
    if frame_level(i):
        r = set(reach(i))
    elif k[0] == "cj":
        r = set(mirrored(dep_sure(k[1])))
    elif i in SUMS:
        l, q = SUMS[i]
        groups = {}
        inner = {}
        for m, c in q.items():
            own = tuple(sorted((base_of(j), e) for j, e in m if frame_level(j)))
            rest = tuple((j, e) for j, e in m if not frame_level(j))
            groups.setdefault(own, {})[rest] = c
            if not own:
                inner[rest] = c
        for own, g in groups.items():
            if own:
                if nonzero(g):
                    r.add(("moment", own))
        if inner and len(groups) == 1:
            r |= dep_poly(inner)
    elif i in SQ:
        r = dep_poly(SQ[i])
    elif k[0] == "poly":
        r = dep_poly(NAMED[i][1][0])
    r = DEP[i] = frozenset(r)
    return r


def dep_poly(p):
    ids = atoms_of(p)
    out = set()
    for t in ids:
        d = set(dep_sure(t))
        for o in ids:
            if o != t and d:
                d -= reach(o)
                if ("any",) in reach(o):
                    d = set()
        if d and any(nonzero(g) for e, g in split_by(p, t).items() if e):
            out |= d
    return out


def split_by(p, t):
    groups = {}
    for m, c in p.items():
        e = 0
        for j, x in m:
            if j == t:
                e = x
        groups.setdefault(e, {})[tuple(x for x in m if x[0] != t)] = c
    return groups


def unroot(p):
    """square roots as half powers of what is under them; None when two monomials become the same"""
    if not any(i in SQ for i in atoms_of(p)):
        return p
    r = {}
    for m, c in p.items():
        d = {}
        for i, e in m:
            if i in SQ:
                if i in PID:
                    d[PID[i][0]] = d.get(PID[i][0], 0) + Fraction(e, 2)
                elif len(SQ[i]) == 1:
                    (n, _), = SQ[i].items()
                    if not n:
                        return None
                    for j, f in n:
                        if j in SQ:
                            return None
                        d[j] = d.get(j, 0) + Fraction(e * f, 2)
                else:
                    return None
            else:
                d[i] = d.get(i, 0) + e
        k = tuple(sorted((i, e) for i, e in d.items() if e))
        if k in r:
            return None
        r[k] = c
    return r


def nonzero(p, fuel=40):
    """certainly not identically zero; a sufficient condition"""
    if not p or fuel <= 0 or len(p) > 20000:
        return False
    if len(p) == 1:
        (m, c), = p.items()
        return all(sure(i) for i, e in m)
    p = strip(p)
    if p is None:
        return False
    if len(p) == 1:
        return True
    if len(p) <= 400:
        q = unroot(p)
        if q is not None and generic(q, fuel):
            return True
    return independent(p)


def strip(p):
    """without the common factor, which has to be certainly not zero"""
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {i: min(e, d.get(i, 0)) if e > 0 else max(e, d.get(i, 0)) for i, e in common.items() if d.get(i, 0) * e > 0}
        if not common:
            return p
    if not all(sure(i) for i in common):
        return None
    inv = tuple(sorted((i, -e) for i, e in common.items()))
    p = {mono_mul(m, inv): c for m, c in p.items()}
    if len(p) == 1:
        (m, c), = p.items()
        return p if all(sure(i) for i, e in m) else None
    return p


def generic(p, fuel):
    """the same for a polynomial without square roots"""
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {i: min(e, d.get(i, 0)) if e > 0 else max(e, d.get(i, 0)) for i, e in common.items() if d.get(i, 0) * e > 0}
        if not common:
            break
    if common:
        if not all(sure(i) for i in common):
            return False
        inv = tuple(sorted((i, -e) for i, e in common.items()))
        p = {mono_mul(m, inv): c for m, c in p.items()}
    if len(p) == 1:
        (m, c), = p.items()
        return all(sure(i) for i, e in m)
    ids = atoms_of(p)
    if ids <= {IM}:
        return True
    if fuel <= 0:
        return False
    count = {}
    for o in ids:
        for g in reach(o):
            count[g] = count.get(g, 0) + 1
    if ("any",) in count:
        return False
    for t in sorted(ids, key=lambda z: (-ATOMS[z][5], z)):
        if t == IM or not any(count[g] == 1 for g in dep_sure(t)):
            continue
        return any(generic(q, fuel - 1) for q in sorted(split_by(p, t).values(), key=len))
    return False


def sure(i):
    """the atom is certainly not identically zero"""
    r = SURE.get(i)
    if r is None:
        SURE[i] = False
        r = SURE[i] = sure_(i)
    return r


EIGEN = {"eigh", "linalg_eigh", "linalg_eigvalsh"}     # components of eigenvectors of a matrix of moments: not always zero


def sure_(i):
    k = ATOMS[i][0]
    if ATOMS[i][4]:
        return False
    if k[0] in ("size", "i") or frame_level(i):
        return True
    if i in SUMS:
        return nonzero(SUMS[i][1])
    if i in SQ:
        return nonzero(SQ[i])
    if k[0] == "poly":
        return nonzero(NAMED[i][1][0])
    if k[0] == "cj":
        return sure(k[1])
    if k[0] == "op" and k[1] in EIGEN:
        return True
    if k[0] == "fn" and k[1] == "amax":
        ps = NAMED[i][1]
        return all(isnonneg(p) for p in ps) and any(nonzero(p) for p in ps)
    if k[0] == "solve":
        A, B, r = NAMED[i][1]
        if len(A) > 3:
            return False
        try:
            return nonzero(det([[B[z] if c == r else A[z][c] for c in range(len(A))] for z in range(len(A))]))
        except TooBig:
            return False
    return False


EFFORT = 400000


def is_zero(p, effort=EFFORT):
    """True: identically zero.  False: certainly not.  None: not decided"""
    if not p:
        return True
    if weak(p):
        return None
    if nonzero(p):
        return False
    for solves in (False, True) + (("small",) if large_solve(p) else ()):
        WORK[0] = effort
        try:
            q = clear(normal(p, solves))
            if not q:
                return True
            if nonzero(q) or norm_nonzero(q):
                return False
        except (TooBig, Undecided, RecursionError):
            pass
        finally:
            WORK[0] = None
    return by_cases(p, effort)


def inner_roots(i, seen=None):
    """square roots below a square root"""
    seen = set() if seen is None else seen
    for j in atoms_of(SQ[i]):
        if j in SQ and j not in seen:
            seen.add(j)
            inner_roots(j, seen)
    return seen


def norm_nonzero(q, fuel=8):
    """the product of a + b s and a - b s, s a square root, has s removed; it is zero when the first factor is.
    True: without any root it is a polynomial in independent quantities that is not zero"""
    roots = [i for i in atoms_of(q) if i in SQ]
    if not all(i in SQ or i == IM or free_atom(i) for i in atoms_of(q)):
        return False
    if not roots:
        return bool(q) and independent(q)
    if fuel <= 0:
        return False
    i = next((i for i in roots if not any(i in inner_roots(j) for j in roots if j != i)), None)
    if i is None:
        return False
    lo = min((e for m in q for j, e in m if j == i), default=0)
    if lo < 0:
        q = mul(q, power(var(i), -lo))
    g = split_by(q, i)
    if set(g) - {0, 1}:
        return False
    a, b = g.get(0, {}), g.get(1, {})
    if not b:
        return norm_nonzero(a, fuel)
    if not a:
        return sure(i) and norm_nonzero(b, fuel)
    if max(len(a), len(b)) > 600:
        return False
    n = clear(sub(mul(a, a), mul(mul(b, b), SQ[i])))
    if not n:
        return False
    return norm_nonzero(n, fuel - 1)


def large_solve(p):
    return any(ATOMS[i][0][0] == "solve" and len(NAMED[i][1][0]) > 2 or ATOMS[i][0][0] == "cj" and ATOMS[ATOMS[i][0][1]][0][0] == "solve" and len(NAMED[ATOMS[i][0][1]][1][0]) > 2 for i in atoms_of(p))


def by_cases(p, effort):
    """the largest or smallest of some values is one of them, the absolute value of a real one it or its negative: zero when zero for each, not zero when for none of them"""
    i = choice(p)
    if i is None or i in SUBST or len(SUBST) > 2:
        return None
    cases = (MODULUS[i], scale(MODULUS[i], -1)) if i in MODULUS else NAMED[i][1]
    if len(cases) > 4:
        return None
    out = set()
    old = dict(NF)
    try:
        for q in cases:
            NF.clear()
            SUBST[i] = q
            try:
                r = normal(p, False)
            except (TooBig, Undecided, RecursionError):
                return None
            out.add(is_zero(r, effort))
            if False in out and any_sign(i):
                return False
            if None in out or len(out) > 1:
                return None
    finally:
        SUBST.pop(i, None)
        NF.clear()
        NF.update(old)
    return out.pop() if out else None


def any_sign(i):
    """the absolute value of an input that can be positive or negative"""
    if i not in MODULUS or len(MODULUS[i]) != 1:
        return False
    (m, c), = MODULUS[i].items()
    return len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0][0] == "in" and not isnonneg(MODULUS[i])


def choice(p):
    """an atom that is the largest or smallest of some values, or an absolute value of a real one, anywhere in a polynomial but not under a sum, where every term has its own"""
    out, summed = set(), set()
    choices(p, False, set(), out, summed)
    return min(out - summed, default=None)


def choices(p, inside, seen, out, summed):
    for i in atoms_of(p):
        if (i, inside) in seen:
            continue
        seen.add((i, inside))
        k = ATOMS[i][0]
        qs = []
        if k[0] == "fn" and k[1] in ("amax", "amin") or i in MODULUS:
            (summed if inside else out).add(i)
            continue
        if k[0] == "cj":
            qs = [var(k[1])]
        elif i in SUMS:
            choices(SUMS[i][1], True, seen, out, summed)
        elif i in SQ:
            qs = [SQ[i]]
        elif k[0] == "poly":
            qs = [NAMED[i][1][0]]
        elif k[0] == "solve":
            A, B, _ = NAMED[i][1]
            qs = [x for row in A for x in row] + list(B)
        for q in qs:
            choices(q, inside, seen, out, summed)


def independent(q):
    """the atoms of q satisfy no polynomial relation, and q is not zero as a polynomial in them"""
    for i in [i for i in atoms_of(q) if i in SQ]:
        es = {e for m in q for j, e in m if j == i}
        if es != {1}:
            # one power of the root only
            k = -min(es) if es else 0
            if k <= 0:
                return False
            try:
                q = mul(q, power(var(i), k))
            except TooBig:
                return False
            if any(e != 1 for m in q for j, e in m if j == i):
                return False
    if not q:
        return False
    roots = [i for i in atoms_of(q) if i in SQ]
    rest = [i for i in atoms_of(q) if i not in SQ]
    if not all(free_atom(i) or i == IM for i in rest):
        return False
    rad = {}
    for i in roots:
        try:
            rad[i] = clear(SQ[i])
        except (TooBig, Undecided):
            return False
        if any(j in SQ or j != IM and not free_atom(j) for j in atoms_of(rad[i])):
            return False
    for i in roots:
        # an atom of its own, of degree one: no product of the radicands is a square
        own = False
        for j in atoms_of(rad[i]):
            if any(j in atoms_of(rad[o]) for o in roots if o != i):
                continue
            es = {next((e for a, e in m if a == j), 0) for m in rad[i]}
            if es <= {0, 1} and 1 in es or es == {1}:
                own = True
                break
            if es <= {0, 1, 2} and 2 in es:
                # of degree two with a discriminant: no square
                g = split_by(rad[i], j)
                if sub(mul(g.get(1, {}), g.get(1, {})), scale(mul(g[2], g.get(0, {})), 4)):
                    own = True
                    break
        if not own:
            return False
    return True
