"""Transfer functions for the tensor operations."""
import itertools
import math

from .poly import P, Poly, lower, exact_div, eval_poly
from .vals import *
from . import charge as Q
from .charge import qadd, qneg, qat, qshift, neutral, set_neutral, set_unk, set_bad, set_status, is_bad

LO = {"any": 0, "ge0": 1, "nz": 1, "gt0": 2, "gtc": 3, "unk": 9}


# ------------------------------------------------------------------ helpers
def is_num(v):
    return isinstance(v, (int, float, complex, Poly, Flt)) and not isinstance(v, bool) or isinstance(v, bool)


def scal_lo(I, v):
    if isinstance(v, bool):
        return "gtc" if v else "ge0"
    if isinstance(v, (int, float)):
        return "gtc" if v > 0 else ("ge0" if v == 0 else "nz")
    if isinstance(v, complex):
        return "nz" if v != 0 else "ge0"
    if isinstance(v, Poly):
        if I.facts.prove_ge0(v - 1):
            return "gtc"
        if I.facts.prove_ge0(v):
            return "ge0"
        return "any"
    if isinstance(v, (T, Flt)):
        return v.lo
    return "unk"


def scal_zero(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool) and v == 0


def as_int(v):
    v = lower(v) if isinstance(v, Poly) else v
    return v if isinstance(v, int) and not isinstance(v, bool) else None


def mk(I, ins, shape, dtype, device=None, lo="any", hi=False, normop=False, base=None):
    t = T(shape, dtype, device)
    ts = [x for x in ins if isinstance(x, (T, Flt, Unk))]
    dev = device
    if dev is None:
        dev = join_device(I, [x for x in ts if isinstance(x, T)])
    t.device = dev
    t.data = any(x.data for x in ts)
    mix = frozenset()
    nan = frozenset()
    lags = frozenset()
    sev = {}
    grad = False
    for x in ts:
        if x.mix:
            mix |= x.mix
        if isinstance(x, Unk):
            sev.update(x.sev)
            continue
        if x.nan:
            nan |= x.nan
        if isinstance(x, T) and x.lags:
            lags |= x.lags
        if x.sev:
            for s, k in x.sev.items():
                sev[s] = "full" if sev.get(s) == "full" else k
        grad = grad or x.grad
    if normop:
        sev = {s: "norm" for s in sev}
    if grad and I.nograd:
        s = I.site()
        sev[s] = "norm" if normop else "full"
        grad = False
    isint = dtype is not None and dtype.kind in "ib"
    if isint:
        grad = False
        sev = {}
    t.mix, t.nan, t.lags, t.sev, t.grad = mix, nan, lags, sev, grad
    for x in ts:
        if isinstance(x, T):
            if x.taint:
                t.taint = t.taint | x.taint
            if x.load or x.load is None or x.eye:
                t.load = None
    t.lo, t.hi = lo, hi
    if dtype is not None and dtype.kind == "c" and lo in ("ge0", "gt0", "gtc"):
        t.lo = "any" if lo == "ge0" else "nz"
    if any(isinstance(x, Unk) for x in ts):
        t.qst = "unk"
        if t.lo == "any":
            t.lo = "unk"
    return t


def join_device(I, ts):
    dev = None
    unknown = False
    zero = None
    for x in ts:
        if x.device is None:
            unknown = True
            continue
        if x.shape is not None and len(x.shape) == 0 and x.device == "cpu":
            zero = "cpu"
            continue
        if dev is None:
            dev = x.device
        elif dev != x.device:
            I.event("device_mix", dev, x.device)
            I.error("RuntimeError", "tensors on different devices (%s and %s)" % (dev, x.device), "device")
    if dev is None and not unknown:
        return zero or "cpu"
    return dev


def view(I, x, shape, **kw):
    """result sharing x's storage and facts"""
    t = x.clone()
    t.shape = None if shape is None else tuple(shape)
    t.view_of = x
    t.vn = None
    t.spec = None
    t.conv = None
    t.eye = None
    t.load = None if (x.load is None or x.load or x.eye) else False
    t.cells = None
    t.val = None
    t.lin = None
    t.kind = "ndarray" if x.kind == "ndarray" else "tensor"
    t.owner = None
    for k, v in kw.items():
        setattr(t, k, v)
    if t.grad and I.nograd:
        t.grad = False
        t.sev = dict(t.sev)
        t.sev[I.site()] = "full"
    return t


def dim_index(I, x, d, extra=0, what="dim"):
    if isinstance(d, Poly):
        d = lower(d)
    if not isinstance(d, int):
        return None
    n = len(x.shape) + extra
    if d < -n or d >= n:
        I.error("IndexError", "dimension %d out of range for a %d-dimensional tensor" % (d, n), "shape")
    return d % n


def dims_list(I, x, dim):
    if dim is None:
        return list(range(len(x.shape)))
    if isinstance(dim, (tuple, list)):
        r = [dim_index(I, x, d) for d in dim]
        return None if any(v is None for v in r) else r
    r = dim_index(I, x, dim)
    return None if r is None else [r]


def merge_dim(I, ds, what):
    """broadcast a list of Dim (None allowed); returns plain Dim"""
    ds = [d for d in ds if d is not None and not d.is1()]
    if not ds:
        return Dim(())
    base = ds[0]
    for d in ds[1:]:
        a, b = base.size, d.size
        if a == b:
            pass
        else:
            r = I.facts.cmp("==", a, b)
            if r is not True:
                w = I.facts.refute(lambda e: eval_poly(a, e, I.facts) == eval_poly(b, e, I.facts)
                                   or eval_poly(a, e, I.facts) == 1 or eval_poly(b, e, I.facts) == 1, (a, b))
                if w is not None:
                    I.error("RuntimeError", "shape mismatch in %s: size %r against size %r (e.g. %s)" % (what, a, b, show_env(w)), "shape")
        if len(d.atoms) > len(base.atoms):
            base, d = d, base
        if len(d.atoms) == len(base.atoms):
            base = Dim(x.rep(role=x.role if x.role is not None else y.role, lag=x.lag if x.lag is not None else y.lag)
                       for x, y in zip(base.atoms, d.atoms))
    return Dim(a.rep(q=(), d=None) for a in base.atoms)


def show_env(e):
    return ", ".join("%s=%s" % (k, v) for k, v in sorted(e.items(), key=repr) if isinstance(k, str) and "@" not in k and "#" not in k)


def bshape(I, ts, what):
    if any(t.shape is None for t in ts):
        return None
    rank = max(len(t.shape) for t in ts)
    cols = []
    for i in range(rank):
        ds = []
        for t in ts:
            j = i - (rank - len(t.shape))
            ds.append(t.shape[j] if j >= 0 else None)
        cols.append(merge_dim(I, ds, what))
    return cols


def to_T(I, v, like=None):
    """scalar to 0-dim pseudo tensor (weak)"""
    if isinstance(v, T):
        return v
    t = T((), None, "cpu")
    t.kind = "scalar"
    t.vn = vnof(v)
    t.lo = scal_lo(I, v)
    t.hi = True
    if scal_zero(v):
        t.qst = "zero"
    if isinstance(v, Flt):
        t.data, t.sev, t.mix, t.nan, t.grad, t.hi = v.data, dict(v.sev), v.mix, v.nan, v.grad, v.hi
    if isinstance(v, Unk):
        t.qst = "unk"
        t.lo = "unk"
        t.data, t.mix = v.data, v.mix
    if isinstance(v, (int, float)):
        t.val = v
    t.attrs = {"py": v}
    return t


def res_dtype(I, a, b, div=False):
    """dtype of a binary op on T / scalars"""
    def cls(x):
        if x.kind == "scalar":
            v = x.attrs["py"]
            if isinstance(v, bool):
                return (0, BOOL)
            if isinstance(v, (int, Poly)):
                return (1, I64)
            if isinstance(v, complex):
                return (3, None)
            if isinstance(v, (float, Flt)):
                return (2, I.default_dtype)
            return (None, None)
        return None
    ca, cb = cls(a), cls(b)
    if ca is not None and cb is not None:
        return I.default_dtype
    if ca is not None or cb is not None:
        t, c = (b, ca) if ca is not None else (a, cb)
        if t.dtype is None or c[0] is None:
            return None if c[0] is None else t.dtype
        k = CAT[t.dtype.kind]
        if c[0] <= k:
            r = t.dtype
        elif c[0] == 3:
            r = t.dtype.cplx() if t.dtype.kind == "f" else C64
        elif c[0] == 2:
            r = I.default_dtype
        else:
            r = c[1]
    else:
        if a.dtype is None or b.dtype is None:
            return None
        az = a.shape is not None and len(a.shape) == 0
        bz = b.shape is not None and len(b.shape) == 0
        if az == bz or a.shape is None or b.shape is None:
            r = promote(a.dtype, b.dtype)
        else:
            z, t = (a, b) if az else (b, a)
            if CAT[z.dtype.kind] <= CAT[t.dtype.kind]:
                r = t.dtype
            else:
                r = promote(z.dtype, t.dtype)
    if div and r is not None and r.kind in "ib":
        r = I.default_dtype
    return r


# ---- sign algebra
def lo_add(a, b):
    if "unk" in (a, b):
        return "unk"
    if a in ("any", "nz") or b in ("any", "nz"):
        return "any"
    if "gtc" in (a, b):
        return "gtc"
    if "gt0" in (a, b):
        return "gt0"
    return "ge0"


def lo_mul(a, b):
    if "unk" in (a, b):
        return "unk"
    nzs = ("nz", "gt0", "gtc")
    if a in nzs and b in nzs:
        if "nz" in (a, b):
            return "nz"
        return "gtc" if a == b == "gtc" else "gt0"
    if a == "any" or b == "any" or "nz" in (a, b):
        return "any"
    return "ge0"


def lo_join(a, b):
    if a == b:
        return a
    if "unk" in (a, b):
        return "unk"
    if "any" in (a, b):
        return "any"
    if "nz" in (a, b):
        o = a if b == "nz" else b
        return "nz" if o in ("gt0", "gtc") else "any"
    return a if LO[a] < LO[b] else b


def danger(I, t, what):
    """value used as a divisor / log argument: record the site when it is known to vanish"""
    if t.qst == "zero" and t.kind != "scalar":
        return frozenset([(I.site(), what)])
    return frozenset()


def pair_inputs(I, a, b):
    A, B = to_T(I, a), to_T(I, b)
    return A, B


OPNAMES = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "FloorDiv": "floordiv",
           "Mod": "mod", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}


def binop(I, op, a, b):
    op = OPNAMES.get(op, op)
    if op == "matmul":
        r = matmul(I, a, b)
    else:
        r = ew2(I, op, a, b)
    if isinstance(r, T) and r.vn is None:
        r.vn = H(op, a, b)
    return r


def affine(a, b, s=1):
    x, y = (v if isinstance(v, (int, float)) and not isinstance(v, bool) else getattr(v, "hi", None) for v in (a, b))
    return Aff.add(x, y, s)


def ew2(I, op, a, b):
    I.opcount += 1
    A, B = pair_inputs(I, a, b)
    if A.dtype is not None and B.dtype is not None and A.kind == "ndarray" != B.kind:
        pass
    shape = bshape(I, (A, B), op)
    dt = res_dtype(I, A, B, div=op == "div")
    if op in ("and", "or", "xor"):
        out = mk(I, (A, B), shape, dt or BOOL)
        return set_unk(out) if not (neutral(A) and neutral(B)) else out
    out = mk(I, (A, B), shape, dt)
    real = dt is None or dt.kind != "c"
    la, lb = A.lo, B.lo
    if op == "add":
        out.lo = lo_add(la, lb) if real else "any"
        out.hi = affine(a, b) or bool(A.hi and B.hi)
        if "unk" in (la, lb):
            out.lo = "unk"
        ld(out, A, B)
        ch_add(I, A, B, out)
    elif op == "sub":
        out.lo = "any"
        if A.hi and B.hi:
            out.hi = affine(a, b, -1) or True
        elif A.hi and lb in ("ge0", "gt0", "gtc"):
            out.hi = True
        if "unk" in (la, lb):
            out.lo = "unk"
        # 1 - eps style constants
        ld(out, A, B)
        ch_add(I, A, B, out, "difference")
    elif op == "mul":
        same = isinstance(a, T) and isinstance(b, T) and (a is b or (a.vn is not None and a.vn == b.vn)) and real
        out.lo = lo_mul(la, lb)
        if same and out.lo in ("any",):
            out.lo = "ge0"
        out.hi = bool(A.hi and B.hi)
        for x, k in ((A, b), (B, a)):
            if isinstance(x.hi, Aff) and isinstance(k, (int, float)):
                out.hi = Aff(x.hi.key, x.hi.a * k, x.hi.b * k)
        ch_mul(I, A, B, out)
        mark_eye(I, A, B, out)
        if A.qst == "zero" or B.qst == "zero":
            out.qst = "zero"
            out.lo = "ge0"
        spec_mul(I, A, B, out)
        # loading survives multiplication by a positive scale
        if A.load and lb in ("gt0", "gtc"):
            out.load = True
        elif B.load and la in ("gt0", "gtc"):
            out.load = True
    elif op == "div":
        out.lo = lo_mul(la, lb) if lb not in ("any", "ge0") else ("any" if la != "unk" else "unk")
        if la in ("gt0", "gtc") and lb in ("gt0", "gtc"):
            out.lo = "gtc" if (la == "gtc" and B.hi) else "gt0"
        elif la == "ge0" and lb in ("gt0", "gtc"):
            out.lo = "ge0"
        out.hi = bool(A.hi) and lb == "gtc"
        if isinstance(A.hi, Aff) and isinstance(b, (int, float)) and b:
            out.hi = Aff(A.hi.key, A.hi.a / b, A.hi.b / b)
        out.nan = out.nan | danger(I, B, "division")
        ch_mul(I, A, B, out, -1)
        mark_eye(I, A, B, out)
        if A.qst == "zero" and not B.data:
            out.qst = "zero"
        if A.load and lb in ("gt0", "gtc"):
            out.load = True
    elif op == "pow":
        e = b if not isinstance(b, T) else None
        if isinstance(e, (int, float)):
            if e == 2 or (isinstance(e, int) and e > 0 and e % 2 == 0):
                out.lo = {"any": "ge0"}.get(la, la) if real else "any"
                out.hi = bool(A.hi)
            elif e > 0:
                out.lo = la if la != "any" else "any"
                out.hi = bool(A.hi)
            elif e < 0:
                out.lo = la if la in ("gt0", "gtc", "nz", "unk") else "any"
                if la == "gtc":
                    out.lo = "gt0"
                out.hi = la == "gtc"
                out.nan = out.nan | danger(I, A, "negative power")
            else:
                out.lo = "gtc"
        else:
            out.lo = "gt0" if la in ("gt0", "gtc") else ("ge0" if la == "ge0" else "unk")
        if isinstance(e, int) and e == 1:
            ch_copy(A, out)
        elif isinstance(e, int) and e > 1 and not A.comp and not A.ri and A.qst == "ok" and A.qe is None:
            Q.mul_charge(I, A, A, out) if e == 2 else Q.nonlinear(I, A, out, "power")
        elif e == 2 and A.ri is True:
            ri_square(I, A, out)
        elif e == 2 and A.comp:
            ch_mul(I, A, A, out)
        else:
            Q.nonlinear(I, A, out, "power")
            if is_bad(B):
                set_status(out, B.qst)
        if out.dtype is not None and out.dtype.kind in "ib" and isinstance(e, float):
            out.dtype = I.default_dtype
    elif op in ("floordiv", "mod"):
        Q.nonlinear(I, A, out, op)
        if out.grad and op == "floordiv":
            out.sev[I.site()] = "full"
            out.grad = False
        out.lo = "any" if out.data else "unk"
        out.nan = out.nan | danger(I, B, "division")
    else:
        set_unk(out)
        out.lo = "unk"
    if isinstance(out.hi, Aff) and real:
        out.lo = "gtc" if out.hi.inf > 0 else "ge0" if out.hi.inf == 0 else "any"
    if not real and out.lo in ("ge0", "gt0", "gtc"):
        out.lo = "nz" if out.lo in ("gt0", "gtc") else "any"
    if out.lin is None:
        from . import linform
        linform.ew2(I, op, A, B, out)
    return out


def ld(out, A, B):
    """sum of a matrix and a positive multiple of the identity is loaded"""
    if A.eye == "pos" and B.eye == "pos":
        out.eye = "pos"
        out.load = True
    elif A.eye == "pos" or B.eye == "pos":
        out.load = True
    elif A.load is None or B.load is None:
        out.load = None
    elif A.load or B.load:
        out.load = True
    elif (not A.data and not scal_zero(A)) or (not B.data and not scal_zero(B)):
        out.load = None
    else:
        out.load = False


def mark_eye(I, A, B, out):
    for x, y in ((A, B), (B, A)):
        if x.eye in ("eye", "pos"):
            # y must be scalar-like over the last two axes
            sc = y.shape is not None and all(d.is1() for d in y.shape[-2:])
            if sc:
                if y.lo in ("gt0", "gtc"):
                    out.eye = "pos"
                elif y.lo == "unk":
                    out.eye = None
                    out.load = None
                else:
                    out.eye = None
                return


def ch_add(I, A, B, out, what="sum"):
    if out.shape is None or A.shape is None or B.shape is None:
        return set_unk(out)
    if A.comp or B.comp:
        return comp_add(I, A, B, out, -1 if what == "difference" else 1)
    return Q.add_charge(I, A, B, out, what)


def ch_mul(I, A, B, out, sign=1):
    if out.shape is None or A.shape is None or B.shape is None:
        return set_unk(out)
    if is_bad(A):
        return set_status(out, A.qst)
    if is_bad(B):
        return set_status(out, B.qst)
    if A.ri == "sq" or B.ri == "sq":
        return set_unk(out)
    if A.ri or B.ri:
        # (re, im) pair times a real neutral factor constant over the pair
        x, y = (A, B) if A.ri else (B, A)
        if y.ri or (sign == -1 and B.ri):
            if A.ri and B.ri and sign == 1 and (A is B or A.vn == B.vn):
                return ri_square(I, A, out)
            return set_unk(out)
        if y.qst == "unk":
            return set_unk(out)
        if y.shape and not y.shape[-1].is1():
            if neutral(y):
                return set_bad(I, out, "real and imaginary parts scaled differently")
            return set_unk(out)
        if y.comp:
            return set_unk(out)
        Q.mul_charge(I, A, B, out, sign)
        if out.qst == "ok":
            out.ri = True
        return out
    if A.comp or B.comp:
        if sign == -1:
            if B.comp:
                return set_bad(I, out, "division by a phase-dependent real/imaginary part")
            return comp_lift(I, "div", (A, B), out, lambda a, b: ew2(I, "div", a, b))
        return comp_lift(I, "mul", (A, B), out, lambda a, b: ew2(I, "mul", a, b), commute=True)
    return Q.mul_charge(I, A, B, out, sign)


def ch_copy(src, out):
    if src.shape is None or out.shape is None:
        return set_unk(out)
    return Q.copy_charge(src, out)


def ri_square(I, x, out):
    """squared (re, im) pair: summing the pair gives |.|^2"""
    set_neutral(out)
    out.ri = "sq"
    out.lo = "ge0"
    return out


# ---- re/im component algebra
def comp_of(I, x):
    """component list of a real tensor"""
    if x.comp:
        return x.comp
    if x.qst == "zero":
        return []
    return [(1.0, ("n", x.vn), x)]


def comp_lift(I, name, args, out, f, commute=False):
    """apply a multilinear operation to component forms"""
    if any(is_bad(a) for a in args):
        return set_status(out, [a.qst for a in args if is_bad(a)][0])
    if any(a.qst == "unk" for a in args):
        return set_unk(out)
    if any(a.comp and a.comp[0] == "pair" for a in args if a.comp):
        return set_unk(out)
    lists = [comp_of(I, a) for a in args]
    n = 1
    for l in lists:
        n *= len(l)
    if n > 64:
        return set_unk(out)
    res = []
    ev = len(I.events)
    for combo in itertools.product(*lists):
        c = 1.0
        for x in combo:
            c = c * x[0]
        keys = [x[1] for x in combo]
        if commute:
            keys = sorted(keys, key=repr)
        r = f(*[x[2] for x in combo])
        res.append((c, (name,) + tuple(keys), r))
    del I.events[ev:]
    return comp_finish(I, res, out)


def comp_add(I, A, B, out, sign=1):
    for x in (A, B):
        if is_bad(x):
            return set_status(out, x.qst)
    if A.qst == "unk" or B.qst == "unk":
        return set_unk(out)
    if (A.comp and A.comp[0] == "pair") or (B.comp and B.comp[0] == "pair"):
        return set_unk(out)
    res = list(comp_of(I, A)) + [(sign * c, k, t) for c, k, t in comp_of(I, B)]
    return comp_finish(I, res, out)


def comp_finish(I, res, out):
    acc = {}
    order = []
    for c, k, t in res:
        if k in acc:
            acc[k][0] += c
        else:
            acc[k] = [c, t]
            order.append(k)
    items = [(acc[k][0], k, acc[k][1]) for k in order if abs(acc[k][0]) > 1e-9]
    set_neutral(out)
    if not items:
        out.qst = "zero"
        return out
    bads = [t for c, k, t in items if is_bad(t)]
    if bads and (len(items) > 64 or (out.dtype is not None and out.dtype.kind == "c") or len(bads) == len(items) == 1):
        return set_status(out, bads[0].qst)
    for c, k, t in items:
        if t.qst == "unk":
            return set_unk(out)
    # all monomials with one common charge?  (a non-covariant monomial may still cancel later)
    first = items[0][2]
    same = not bads
    for c, k, t in items[1:]:
        if not same:
            break
        a, b = Q.settle(I, first), Q.settle(I, t)
        if a.qst != "ok" or b.qst != "ok":
            return set_unk(out)
        if a.shape is None or b.shape is None:
            return set_unk(out)
        r = Q.unify(I, a, b, max(len(a.shape), len(b.shape)))
        if r is None:
            same = False
            break
        if r == "unk":
            return set_unk(out)
    if same and neutral_q(first):
        return out
    if same and out.dtype is not None and out.dtype.kind == "c":
        return ch_copy(first, out)
    if len(items) > 64:
        return set_unk(out)
    out.comp = items
    return out


def neutral_q(t):
    return t.qst == "zero" or (t.qst == "ok" and not t.qs and not t.qe and not any(a.q for d in t.shape for a in d.atoms))


def comp_map(I, x, out, name, f):
    """linear operation applied to each component"""
    if not x.comp:
        return out
    if x.comp[0] == "pair":
        return set_unk(out)
    ev = len(I.events)
    res = [(c, (name, k), f(t)) for c, k, t in x.comp]
    del I.events[ev:]
    return comp_finish(I, res, out)


# ------------------------------------------------------------------ compare
def compare(I, op, a, b):
    A, B = pair_inputs(I, a, b)
    shape = bshape(I, (A, B), "comparison")
    out = mk(I, (A, B), shape, BOOL)
    out.lo = "unk"
    if (A.data and not neutral(A) and A.qst == "ok") or (B.data and not neutral(B) and B.qst == "ok"):
        set_bad(I, out, "comparison of a phase-dependent quantity")
    elif is_bad(A) or is_bad(B):
        set_status(out, A.qst if is_bad(A) else B.qst)
    else:
        set_neutral(out)
    out.vn = H("cmp", op, a, b)
    out.attrs = {"cmp": (op, A, B)}
    return out


# ------------------------------------------------------------------ join
def same_T(I, a, b):
    if a.shape is None or b.shape is None:
        return a.shape is b.shape
    if len(a.shape) != len(b.shape):
        return False
    for x, y in zip(a.shape, b.shape):
        if len(x.atoms) != len(y.atoms):
            return False
        for p, q in zip(x.atoms, y.atoms):
            if p.size != q.size or p.role != q.role or p.q != q.q or p.lag != q.lag:
                return False
    return (a.dtype is b.dtype and a.device == b.device and a.lo == b.lo and a.hi == b.hi and a.nan == b.nan
            and a.grad == b.grad and a.sev == b.sev and a.mix == b.mix and a.lags == b.lags
            and (a.qst == b.qst or (isinstance(a.qst, tuple) and isinstance(b.qst, tuple))) and a.qs == b.qs
            and a.data == b.data and a.stor == b.stor)


def join_T(I, a, b):
    out = b.clone()
    if a.vn is not None and a.vn == b.vn and repr(a) == repr(b) and a.dl == b.dl and a.lags == b.lags and a.grad == b.grad:
        return out
    if a.shape is None or b.shape is None or len(a.shape) != len(b.shape):
        out.shape = None
        set_unk(out)
        if a.shape is not None and b.shape is not None:
            out.qst = "unk"
    else:
        dims = []
        qq = True
        for x, y in zip(a.shape, b.shape):
            if not I.facts.prove_eq(x.size, y.size):
                nm = "join:" + H(x.size, y.size)[:8]
                dims.append(Dim((Atom(I.facts.new_sym(nm, 0), None),)))
                qq = False
            else:
                dims.append(y if len(y.atoms) >= len(x.atoms) else x)
        out.shape = tuple(dims)
        if not qq:
            set_unk(out)
        elif is_bad(a):
            set_status(out, a.qst)
        elif is_bad(b):
            set_status(out, b.qst)
        elif a.qst == "zero":
            pass
        elif b.qst == "zero":
            ch_copy(a, out)
        elif a.qst == "unk" or b.qst == "unk" or a.comp or b.comp or a.ri != b.ri:
            if not (a.comp and b.comp and len(a.comp) == len(b.comp)):
                set_unk(out)
        elif a.qe or b.qe:
            pass
        else:
            tmp = out.clone()
            set_neutral(tmp)
            ev = len(I.events)
            Q.add_charge(I, a, b, tmp)
            del I.events[ev:]
            if is_bad(tmp):
                set_unk(out)
            else:
                out.shape, out.qs, out.dl, out.qst = tmp.shape, tmp.qs, tmp.dl, tmp.qst
    out.dtype = a.dtype if a.dtype is b.dtype else None
    out.device = a.device if a.device == b.device else None
    out.data = a.data or b.data
    out.lo = lo_join(a.lo, b.lo)
    out.hi = a.hi if a.hi == b.hi else bool(a.hi and b.hi)
    out.nan = a.nan | b.nan
    out.stor = a.stor | b.stor
    out.grad = a.grad or b.grad
    out.sev = dict(a.sev)
    out.sev.update(b.sev)
    out.mix = a.mix | b.mix
    out.lags = a.lags | b.lags
    out.load = a.load if a.load == b.load else None
    out.eye = a.eye if a.eye == b.eye else None
    out.spec = None
    out.conv = None
    out.vn = H("phi", a, b) if a.vn != b.vn else a.vn
    return out


def join_flt(a, b):
    r = Flt(H("phi", a, b), lo_join(a.lo, b.lo), bool(a.hi and b.hi), a.data or b.data)
    r.sev = dict(a.sev)
    r.sev.update(b.sev)
    r.mix = a.mix | b.mix
    r.nan = a.nan | b.nan
    return r


# ------------------------------------------------------------------ reductions
def batch_roles(atoms):
    return [a.role for a in atoms if a.role and a.role[0] == "b" and a.role[1:].isdigit()]


def note_mix(I, out, atoms, what):
    br = batch_roles(atoms)
    if br:
        out.mix = out.mix | frozenset([(I.site(), what)])
        if out.data:
            I.event("mix", what)


def lag_reduce(I, t, atoms):
    """lags after the given atoms are summed out"""
    lags = t.lags
    for a in atoms:
        if a.lag is not None and lags:
            o, st = a.lag
            n = a.size
            if st > 0:
                lags = frozenset((lower(P(lo) + o), lower(P(hi) + P(o) + n - 1)) for lo, hi in lags)
            else:
                lags = frozenset((lower(P(lo) + P(o) - n + 1), lower(P(hi) + P(o))) for lo, hi in lags)
    if any(a.role == "frame" for a in atoms):
        lags = frozenset()
    return lags


def reduce_(I, x, dim, keepdim, kind, dtype=None):
    """sum/mean/max/... over dims.  kind: sum mean prod max min norm any all var median logsumexp"""
    I.opcount += 1
    if x.shape is None:
        out = mk(I, (x,), None, dtype or x.dtype)
        set_unk(out)
        out.lo = "unk"
        return out
    dims = dims_list(I, x, dim)
    if dims is None:
        out = mk(I, (x,), None, dtype or x.dtype)
        set_unk(out)
        out.lo = "unk"
        return out
    x0 = x
    if x.qe is not None:
        x = Q.settle(I, x)
    shape = []
    removed = []
    for i, d in enumerate(x.shape):
        if i in dims:
            removed.extend(d.atoms)
            if I.truth_lit(keepdim) if hasattr(I, "truth_lit") else keepdim is True:
                shape.append(Dim(()))
        else:
            shape.append(d)
    real = x.dtype is None or x.dtype.kind != "c"
    odt = dtype or x.dtype
    if kind in ("norm", "var", "std") and odt is not None:
        odt = odt.real()
    if kind in ("mean",) and odt is not None and odt.kind in "ib":
        odt = I.default_dtype
    if kind in ("sum", "prod") and odt is not None and odt.kind in "ib":
        odt = I64
    nonneg = x.lo in ("ge0", "gt0", "gtc")
    normop = kind == "norm" or (real and nonneg)
    out = mk(I, (x,), shape, odt, normop=normop)
    if kind in ("sum", "mean"):
        out.lo = x.lo if x.lo in ("ge0", "gt0", "gtc", "unk") else "any"
        out.hi = bool(x.hi) and kind == "mean"
    elif kind in ("max", "min", "median", "amax", "amin"):
        out.lo, out.hi = x.lo if x.lo != "nz" else "any", bool(x.hi)
    elif kind in ("norm", "var", "std"):
        out.lo = "ge0"
        if kind == "norm" and x.lo in ("gt0", "gtc", "nz"):
            out.lo = x.lo if x.lo != "nz" else "gt0"
        out.hi = False
    elif kind == "logsumexp":
        out.lo = "any"
    else:
        out.lo = "unk"
    # batch mixing
    if x.data:
        note_mix(I, out, removed, kind)
    else:
        if batch_roles(removed):
            pass
    out.lags = lag_reduce(I, x, removed)
    # charge
    if x.qst == "zero":
        set_status(out, "zero" if kind != "norm" else "zero")
    elif is_bad(x):
        set_status(out, x.qst)
    elif x.qst == "unk":
        set_unk(out)
    elif kind in ("norm", "var", "std"):
        if x.ri is True:
            if (len(x.shape) - 1) in dims:
                set_neutral(out)
            else:
                set_bad(I, out, "norm of a real/imaginary pair")
        elif x.comp:
            set_bad(I, out, "norm of a phase-dependent real/imaginary part")
        elif kind == "norm":
            set_neutral(out)
        else:
            Q.nonlinear(I, x, out, kind)
    elif kind in ("sum", "mean"):
        if x.ri == "sq":
            if (len(x.shape) - 1) in dims:
                set_neutral(out)
            else:
                set_neutral(out)
                out.ri = "sq"
        elif x.ri is True:
            if (len(x.shape) - 1) in dims:
                set_bad(I, out, "real and imaginary parts summed")
            else:
                red_charge(I, x, out, removed)
                if out.qst == "ok":
                    out.ri = True
        elif x.comp:
            comp_map(I, x, out, "red%s" % (tuple(d - len(x.shape) for d in dims),), lambda t: reduce_(I, t, tuple(dims), keepdim, kind))
        else:
            red_charge(I, x, out, removed)
    else:
        Q.nonlinear(I, x, out, kind)
        if out.qst == "ok":
            set_neutral(out)
    if kind in ("sum", "mean"):
        from . import linform
        linform.reduce(I, x0, dims, keepdim is True, kind, out)
    return out


def red_charge(I, x, out, removed):
    why = Q.reduce_check(I, x, removed)
    if why:
        # a diagonal support lets charge move to the partner axis
        return set_bad(I, out, why)
    # deltas whose partner disappeared are dropped
    ids = [a.d[0] for a in removed if a.d]
    if ids:
        out.shape = tuple(Dim(a.rep(d=None) if a.d and a.d[0] in ids else a for a in d.atoms) for d in out.shape)
    out.qs, out.dl, out.qst = x.qs, x.dl, x.qst
    return out


# ------------------------------------------------------------------ contraction
def joint_dtype(ops):
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = promote(dt, o.dtype)
    return dt


def contract(I, ops, labs, outl, name):
    """general tensor contraction; ops: T list, labs: label lists per operand"""
    I.opcount += 1
    if any(o.shape is None for o in ops):
        out = mk(I, ops, None, joint_dtype(ops))
        return set_unk(out)
    # dtype agreement: operands are combined left to right, a pair that is summed over must have one dtype
    dt = ops[0].dtype
    acc = set(x for d, x in zip(ops[0].shape, labs[0]) if d.atoms)
    for k in range(1, len(ops)):
        o = ops[k]
        mine = set(x for d, x in zip(o.shape, labs[k]) if d.atoms)
        later = set(outl)
        for l in labs[k + 1:]:
            later |= set(l)
        if o.dtype is not dt and o.dtype is not None and dt is not None and (acc & mine) - later:
            mixed_dtype(I, dt, o.dtype, name)
        dt = promote(dt, o.dtype)
        acc = (acc | mine) & later
    comps = [o for o in ops if o.comp]
    sizes = {}
    cols = {}
    for o, l in zip(ops, labs):
        for d, x in zip(o.shape, l):
            cols.setdefault(x, []).append(d)
    for x, ds in cols.items():
        sizes[x] = merge_dim(I, ds, name)
    contracted = [x for x in cols if x not in outl]
    # repeated label inside one operand (diagonal)
    diag = any(len(set(l)) != len(l) for l in labs)
    lo = "any"
    if all(o.dtype is not None and o.dtype.kind != "c" for o in ops):
        los = [o.lo for o in ops]
        if all(x in ("gt0", "gtc") for x in los):
            lo = "gt0"
        elif all(x in ("ge0", "gt0", "gtc") for x in los):
            lo = "ge0"
        elif "unk" in los:
            lo = "unk"
    out = mk(I, ops, [sizes[x] for x in outl], dt, lo=lo)
    # lags
    lags = frozenset()
    framec = any(a.role == "frame" for x in contracted for a in sizes[x].atoms)
    if not framec:
        for o, l in zip(ops, labs):
            at = []
            for d, x in zip(o.shape, l):
                if x in contracted:
                    at.extend(d.atoms)
            lags |= lag_reduce(I, o, at)
    out.lags = lags
    for x in contracted:
        involved = [o for o, l in zip(ops, labs) if x in l]
        if any(o.data for o in involved):
            note_mix(I, out, sizes[x].atoms, name)
    # charge
    sts = Q.merge_status(I, ops)
    if sts != "ok":
        set_status(out, sts)
    elif any(o.ri for o in ops):
        set_unk(out)
    elif comps:
        key = name + ":" + ";".join(str(len(l)) for l in labs)
        comp_lift(I, "ct:%s:%s" % (H(canon_labels(labs, outl)), key), ops, out, lambda *ts: contract(I, list(ts), labs, outl, name))
    else:
        charge_contract(I, ops, labs, outl, sizes, contracted, out, diag, name)
    if all(o.qst == "zero" for o in ops) or any(o.qst == "zero" for o in ops):
        out.lo = "ge0" if dt is not None and dt.kind != "c" else out.lo
    from . import linform
    linform.contract(I, ops, labs, outl, out)
    return out


def canon_labels(labs, outl):
    m = {}
    r = []
    for l in list(labs) + [outl]:
        r.append(tuple(m.setdefault(x, len(m)) for x in l))
    return tuple(r)


def mixed_dtype(I, a, b, name):
    # torch refuses matmul/einsum/solve on different dtypes
    I.error("RuntimeError", "%s on operands of different dtype (%r and %r)" % (name, a, b), "dtype")


def charge_contract(I, ops, labs, outl, sizes, contracted, out, diag, name):
    ops = [Q.settle(I, o) for o in ops]
    if any(o.qst == "unk" for o in ops):
        return set_unk(out)
    seps = [Q.Sep(o) for o in ops]
    n_at = {x: len(sizes[x].atoms) for x in sizes}
    where = {}
    for k, (o, l) in enumerate(zip(ops, labs)):
        for i, x in enumerate(l):
            d = o.shape[i]
            if not d.atoms:
                continue
            if len(d.atoms) != n_at[x]:
                if d.charged():
                    return set_unk(out)
                continue
            where.setdefault(x, []).append((k, i))
    if diag and any(not neutral(o) for o in ops):
        return set_unk(out)

    def tot(x, j):
        q = ()
        for k, i in where.get(x, ()):
            q = qadd(q, seps[k].q[(i, j)])
        return q
    for _ in range(10):
        changed = False
        for x in contracted:
            for j in range(n_at[x]):
                q = tot(x, j)
                if not Q.is_zero_q(I, q):
                    for k, i in where.get(x, ()):
                        if seps[k].shift((i, j), q):
                            changed = True
                            break
                    if changed:
                        break
            if changed:
                break
        if not changed:
            break
    groups = set()
    qs = ()
    for s in seps:
        qs = qadd(qs, s.qs)
    groups |= Q.qgroups(qs)
    shape = []
    gone = set()
    for x in contracted:
        for k, i in where.get(x, ()):
            for j in range(n_at[x]):
                if (i, j) in seps[k].d:
                    gone.add((k, seps[k].d[(i, j)][0]))
    for x in outl:
        atoms = []
        for j, a in enumerate(sizes[x].atoms):
            q = tot(x, j) if n_at[x] else ()
            groups |= Q.qgroups(q)
            dd = None
            for k, i in where.get(x, ()):
                s = seps[k].d.get((i, j))
                if s is not None and (k, s[0]) not in gone:
                    dd = s
            atoms.append(a.rep(q=q, d=dd))
        shape.append(Dim(atoms))
    for x in contracted:
        for j, a in enumerate(sizes[x].atoms):
            q = tot(x, j)
            if not Q.is_zero_q(I, q):
                return set_bad(I, out, "%s: contraction over an axis whose phases do not cancel (%s)" % (
                    name, " ".join("%+d.%s" % (c, g if isinstance(g, str) else g[0]) for (g, o), c in q)))
            if a.role is not None:
                for g in groups:
                    if a.role in I.group_vary(g):
                        return set_bad(I, out, "%s: phase-dependent quantity summed over the %s axis" % (name, a.role))
    out.shape = tuple(shape)
    out.qs = qs
    dl = ()
    for s in seps:
        dl = dl + tuple(s.dl.items())
    out.dl = dl
    out.qst = "ok"
    out.qe = out.comp = None
    out.ri = False
    return out


def einsum(I, eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    if not isinstance(eq, str) or not all(isinstance(o, T) for o in ops):
        return unk_from(I, "einsum", ops)
    eq = eq.replace(" ", "")
    if "->" in eq:
        ins, outs = eq.split("->")
    else:
        ins, outs = eq, None
    terms = ins.split(",")
    if len(terms) != len(ops):
        I.error("RuntimeError", "einsum: %d operands for equation %s" % (len(ops), eq), "shape")
    if any(o.shape is None for o in ops):
        out = mk(I, ops, None, joint_dtype(ops))
        return set_unk(out)
    labs = []
    ne = 0
    for t, o in zip(terms, ops):
        if "..." in t:
            k = len(o.shape) - (len(t) - 3)
            if k < 0:
                I.error("RuntimeError", "einsum: operand with %d dimensions for term %r" % (len(o.shape), t), "shape")
            ne = max(ne, k)
        elif len(t) != len(o.shape):
            I.error("RuntimeError", "einsum: operand with %d dimensions for term %r" % (len(o.shape), t), "shape")
    for t, o in zip(terms, ops):
        if "..." in t:
            a, b = t.split("...")
            k = len(o.shape) - len(a) - len(b)
            labs.append(list(a) + [("e", ne - k + i) for i in range(k)] + list(b))
        else:
            labs.append(list(t))
    if outs is None:
        cnt = {}
        for t in terms:
            for c in t.replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
        outl = [("e", i) for i in range(ne)] + sorted(c for c in cnt if cnt[c] == 1)
    else:
        if "..." in outs:
            a, b = outs.split("...")
            outl = list(a) + [("e", i) for i in range(ne)] + list(b)
        else:
            outl = list(outs)
        known = {x for l in labs for x in l}
        for x in outl:
            if x not in known:
                I.error("RuntimeError", "einsum: output index %r not in the inputs" % (x,), "shape")
    return contract(I, list(ops), labs, outl, "einsum")


def matmul(I, a, b):
    if not isinstance(a, T) or not isinstance(b, T):
        return unk_from(I, "matmul", (a, b))
    if a.shape is None or b.shape is None:
        out = mk(I, (a, b), None, promote(a.dtype, b.dtype))
        return set_unk(out)
    na, nb = len(a.shape), len(b.shape)
    if na == 0 or nb == 0:
        I.error("RuntimeError", "matmul on a 0-dimensional tensor", "shape")
    ea = [("e", i) for i in range(max(na, nb) - na, max(na, nb) - 2)] if na >= 2 else []
    eb = [("e", i) for i in range(max(na, nb) - nb, max(na, nb) - 2)] if nb >= 2 else []
    la = ea + (["i", "k"] if na >= 2 else ["k"])
    lb = eb + (["k", "j"] if nb >= 2 else ["k"])
    out = [("e", i) for i in range(max(na, nb) - 2)] if max(na, nb) > 2 else []
    if na >= 2:
        out = out + ["i"]
    if nb >= 2:
        out = out + ["j"]
    # contraction sizes must agree exactly (no broadcasting)
    ka = a.shape[-1].size
    kb = b.shape[-2].size if nb >= 2 else b.shape[-1].size
    size_must_equal(I, ka, kb, "matmul")
    return contract(I, [a, b], [la, lb], out, "matmul")


def size_must_equal(I, a, b, what):
    if a == b or I.facts.prove_eq(a, b):
        return
    w = I.facts.refute_eq(a, b)
    if w is not None:
        I.error("RuntimeError", "%s: size %r does not match size %r (e.g. %s)" % (what, a, b, show_env(w)), "shape")


def unk_from(I, name, args, dtype=None):
    u = Unk(name, H("unk", name, tuple(vnof(a) for a in args)))
    for a in args:
        for x in (a if isinstance(a, (list, tuple)) else (a,)):
            if isinstance(x, (T, Flt, Unk)):
                u.data = u.data or x.data
                u.mix = u.mix | x.mix
                u.sev = {**u.sev, **x.sev}
    return u


# ------------------------------------------------------------------ linear algebra
def split_square(I, A, name):
    if len(A.shape) < 2:
        I.error("RuntimeError", "%s needs at least two dimensions" % name, "shape")
    size_must_equal(I, A.shape[-1].size, A.shape[-2].size, name)


def solve(I, A, B, left=True):
    if not isinstance(A, T) or not isinstance(B, T):
        return unk_from(I, "solve", (A, B))
    if A.shape is None or B.shape is None:
        out = mk(I, (A, B), None, promote(A.dtype, B.dtype))
        return set_unk(out)
    I.opcount += 1
    split_square(I, A, "solve")
    if A.dtype is not B.dtype and A.dtype is not None and B.dtype is not None:
        mixed_dtype(I, A.dtype, B.dtype, "solve")
    nA, nB = len(A.shape), len(B.shape)
    vec = False
    if nB == 1:
        vec = True
    elif nB == nA - 1 and all(I.facts.prove_eq(x.size, y.size) for x, y in zip(B.shape, A.shape[:-1])):
        vec = True
    if vec:
        bi = B.shape[-1]
        bk = None
        bb = B.shape[:-1]
    else:
        if nB < 2:
            I.error("RuntimeError", "solve: right-hand side of wrong rank", "shape")
        bi, bk = B.shape[-2], B.shape[-1]
        bb = B.shape[:-2]
    size_must_equal(I, A.shape[-2].size, bi.size, "solve")
    ab = A.shape[:-2]
    rank = max(len(ab), len(bb))
    bat = []
    for i in range(rank):
        ds = []
        for s in (ab, bb):
            j = i - (rank - len(s))
            ds.append(s[j] if j >= 0 else None)
        bat.append(merge_dim(I, ds, "solve"))
    res = bat + [A.shape[-1].plain()] + ([bk.plain()] if bk is not None else [])
    out = mk(I, (A, B), res, promote(A.dtype, B.dtype))
    # severed row preconditioners cancel when present on both sides
    both = set(A.sev) & set(B.sev)
    for s in both:
        if A.sev[s] == "norm" and B.sev[s] == "norm":
            out.sev.pop(s, None)
    solve_guard(I, A, out, "linear solve")
    for d in (A.shape[-1], A.shape[-2]):
        if A.data:
            note_mix(I, out, d.atoms, "solve")
    # charge
    if is_bad(A) or is_bad(B):
        set_status(out, A.qst if is_bad(A) else B.qst)
    elif A.qst == "unk" or B.qst == "unk" or A.comp or B.comp or A.ri or B.ri:
        set_unk(out)
    elif B.qst == "zero":
        set_status(out, "zero")
    elif A.qst == "zero":
        set_unk(out)
    else:
        solve_charge(I, Q.settle(I, A), Q.settle(I, B), out, vec)
    out.lo = "any" if A.lo != "unk" else "any"
    return out


def solve_guard(I, A, out, what):
    I.event("solve", what, A.load, A.data, A.eye)
    if A.qst == "zero" or A.attrs and A.attrs.get("singular"):
        out.nan = out.nan | frozenset([(I.site(), what + " of a vanishing matrix")])


def solve_charge(I, A, B, out, vec):
    if A.qst != "ok" or B.qst != "ok":
        return set_unk(out)
    sb = Q.Sep(B)
    sa = Q.Sep(A)
    ia = len(A.shape) - 2
    ib = len(B.shape) - (1 if vec else 2)
    da, db = A.shape[ia], B.shape[ib]
    if len(da.atoms) != len(db.atoms) or len(A.shape[-1].atoms) != len(out.shape[-1 if vec else -2].atoms):
        if da.charged() or db.charged() or A.shape[-1].charged():
            return set_unk(out)
    else:
        for j in range(len(da.atoms)):
            d = qadd(sb.q[(ib, j)], sa.q[(ia, j)], -1)
            if not Q.is_zero_q(I, d):
                if sb.shift((ib, j), d):
                    continue
                if sa.shift((ia, j), qneg(d)):
                    continue
                return set_bad(I, out, "linear solve whose two sides rotate differently")
    shape = [list(d.atoms) for d in out.shape]
    jo = len(out.shape) - (1 if vec else 2)
    if len(shape[jo]) == len(A.shape[-1].atoms):
        for j in range(len(shape[jo])):
            shape[jo][j] = shape[jo][j].rep(q=qneg(sa.q[(len(A.shape) - 1, j)]))
    if not vec:
        kb = len(B.shape) - 1
        for j in range(len(shape[-1])):
            shape[-1][j] = shape[-1][j].rep(q=sb.q.get((kb, j), ()))
    # batch axes
    for s, o, t, sign in ((sa, A, ia, -1), (sb, B, ib, 1)):
        nb = t
        off = jo - nb
        for i in range(nb):
            for j in range(len(o.shape[i].atoms)):
                q = s.q[(i, j)]
                if q:
                    if len(shape[i + off]) != len(o.shape[i].atoms):
                        return set_unk(out)
                    a = shape[i + off][j]
                    shape[i + off][j] = a.rep(q=qadd(a.q, q, sign))
    out.shape = tuple(Dim(x) for x in shape)
    out.qs = qadd(sb.qs, sa.qs, -1)
    out.qst = "ok"
    out.dl = ()
    return out


def inv(I, A):
    if not isinstance(A, T):
        return unk_from(I, "inv", (A,))
    if A.shape is None:
        return set_unk(mk(I, (A,), None, A.dtype))
    split_square(I, A, "inverse")
    out = mk(I, (A,), [d.plain() for d in A.shape], A.dtype)
    solve_guard(I, A, out, "matrix inverse")
    for d in A.shape[-2:]:
        if A.data:
            note_mix(I, out, d.atoms, "inverse")
    if is_bad(A):
        set_status(out, A.qst)
    elif A.qst != "ok" or A.comp or A.ri:
        set_unk(out)
    else:
        A2 = Q.settle(I, A)
        if A2.qst != "ok":
            return set_unk(out)
        sh = [d.plain() for d in A2.shape]
        if len(A2.shape[-1].atoms) == len(A2.shape[-2].atoms):
            sh[-2] = Dim(a.rep(q=qneg(b.q)) for a, b in zip(sh[-2].atoms, A2.shape[-1].atoms))
            sh[-1] = Dim(a.rep(q=qneg(b.q)) for a, b in zip(sh[-1].atoms, A2.shape[-2].atoms))
            for i in range(len(sh) - 2):
                sh[i] = Dim(a.rep(q=qneg(b.q)) for a, b in zip(sh[i].atoms, A2.shape[i].atoms))
            out.shape = tuple(sh)
            out.qs = qneg(A2.qs)
        else:
            set_unk(out)
    return out


def eigh_(I, A):
    if not isinstance(A, T):
        u = unk_from(I, "eigh", (A,))
        return NT.make((u, u), ("eigenvalues", "eigenvectors"), "eigh")
    if A.shape is None:
        t = set_unk(mk(I, (A,), None, A.dtype))
        v = set_unk(mk(I, (A,), None, A.dtype.real() if A.dtype else None))
        return NT.make((v, t), ("eigenvalues", "eigenvectors"), "eigh")
    split_square(I, A, "eigh")
    rd = A.dtype.real() if A.dtype else None
    ev = mk(I, (A,), [d.plain() for d in A.shape[:-1]], rd)
    vec = mk(I, (A,), [d.plain() for d in A.shape], A.dtype)
    for o in (ev, vec):
        for d in A.shape[-2:]:
            if A.data:
                note_mix(I, o, d.atoms, "eigh")
        if is_bad(A):
            set_status(o, A.qst)
        elif A.qst == "unk" or A.comp or A.ri:
            set_unk(o)
    if A.qst == "ok" and not A.comp and not A.ri:
        A2 = Q.settle(I, A)
        if A2.qst != "ok":
            set_unk(ev)
            set_unk(vec)
        else:
            d1, d2 = A2.shape[-2], A2.shape[-1]
            good = len(d1.atoms) == len(d2.atoms)
            herm = good and all(Q.is_zero_q(I, qadd(a.q, b.q)) for a, b in zip(d1.atoms, d2.atoms)) and not A2.qs
            if not good:
                set_unk(ev)
                set_unk(vec)
            elif not herm and not (A2.shape[-1].atoms and A2.shape[-1].atoms[0].d):
                set_bad(I, ev, "eigendecomposition of a matrix that is not Hermitian-covariant")
                set_bad(I, vec, "eigendecomposition of a matrix that is not Hermitian-covariant")
            else:
                g = ("gauge", H("eigh", A)[:8])
                roles = {a.role for d in A2.shape[:-2] for a in d.atoms if a.role}
                I.groups[g] = roles
                sh = [d.plain() for d in A2.shape]
                sh[-2] = Dim(a.rep(q=b.q) for a, b in zip(sh[-2].atoms, d1.atoms))
                la = list(sh[-1].atoms)
                if len(la) == 1:
                    la[0] = la[0].rep(q=(((g, P(0)), 1),), role="eig")
                    sh[-1] = Dim(la)
                    vec.shape = tuple(sh)
                    vec.qst = "ok"
                else:
                    set_unk(vec)
    ev.lo = "any"
    return NT.make((ev, vec), ("eigenvalues", "eigenvectors"), "eigh")


# ------------------------------------------------------------------ indexing
def norm_index(I, i, n):
    """index in [0, n)"""
    p = P(i)
    c = I.facts.cmp(">=", p, 0)
    if c is None:
        c = I.decide_cond(Cond(">=", p, 0))
    if not c:
        p = p + n
    return p


def slice_bounds(I, s, n):
    def bound(v, default):
        if v is None:
            return default
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (Unk, Flt, T)):
            return None
        p = P(v)
        c = I.facts.cmp(">=", p, 0)
        if c is None:
            c = I.decide_cond(Cond(">=", p, 0))
        if not c:
            p = p + n
            if not I.facts.prove_ge0(p):
                p = I.facts.maximum(p, 0)
        if not I.facts.prove_ge0(n - p):
            p = I.facts.minimum(p, n)
        return p
    a = bound(s.start, P(0))
    b = bound(s.stop, n)
    if a is None or b is None:
        return None
    ln = b - a
    if not I.facts.prove_ge0(ln):
        ln = I.facts.maximum(ln, 0)
    return a, ln


def gather_q(I, q, key):
    return Q.qn({((("idx", g, key, repr(o))), P(0)): c for (g, o), c in q}) if q else ()


def getitem(I, x, idx):
    I.opcount += 1
    if isinstance(idx, list) and any(isinstance(i, (slice, type(None), type(Ellipsis))) for i in idx):
        idx = tuple(idx)
    ids = list(idx) if isinstance(idx, tuple) else [idx]
    if x.shape is None:
        out = view(I, x, None)
        set_unk(out) if not neutral(x) else None
        out.vn = H("getitem", x, idx)
        return out
    # charges with element tables
    n_real = sum(1 for i in ids if i is not None and i is not Ellipsis and not (isinstance(i, T) and i.dtype is BOOL))
    if any(isinstance(i, T) and i.dtype is BOOL for i in ids) or any(isinstance(i, Unk) for i in ids):
        out = mk(I, [x] + [i for i in ids if isinstance(i, (T, Unk))], None, x.dtype)
        out.lo, out.hi = x.lo, x.hi
        if any(batch_roles(d.atoms) for d in x.shape):
            pass
        if neutral(x):
            out.qst = "ok"
        else:
            set_unk(out)
        out.vn = H("getitem", x, idx)
        return out
    n_ell = sum(1 for i in ids if i is Ellipsis)
    if n_real > len(x.shape):
        I.error("IndexError", "too many indices for a %d-dimensional tensor" % len(x.shape), "shape")
    if n_ell == 0:
        ids = ids + [Ellipsis]
    k = [j for j, i in enumerate(ids) if i is Ellipsis][0]
    fill = len(x.shape) - n_real
    full = ids[:k] + [slice(None)] * fill + ids[k + 1:]
    # element table selection
    base = x
    if x.qe is not None:
        qd = [len(x.shape) + d for d in x.qe[0]]
        pos = 0
        sel = {}
        for i in full:
            if i is None:
                continue
            if pos in qd and as_int(i) is not None and not isinstance(i, bool):
                sel[pos] = as_int(i) % int(lower(x.shape[pos].size))
            pos += 1
        if set(sel) == set(qd):
            v = x.qe[1].get(tuple(sel[p] for p in qd))
            base = x.clone()
            base.qe = None
            if v is None:
                base.qst = "zero"
            else:
                base.qs = qadd(x.qs, v)
        elif all(isinstance(i, slice) and i == slice(None) or i is None or pos_not_in(x, full, qd) for i in full):
            base = Q.settle(I, x)
        else:
            base = Q.settle(I, x)
    x0 = x
    x = base
    shape = []
    qs = x.qs
    dl = list(x.dl)
    lags = x.lags
    mixs = set()
    pos = 0
    adv = []
    copied = False
    lost = False
    riax = None
    conv = x.conv
    starts = list(x.attrs.get("starts", ())) if x.attrs else []
    toff = x.attrs.get("toff") if x.attrs else None
    for i in full:
        if i is None:
            shape.append(Dim(()))
            continue
        d = x.shape[pos]
        last = pos == len(x.shape) - 1
        pos += 1
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                shape.append(d)
                continue
            st = i.step
            if st is not None and as_int(st) != 1:
                if as_int(st) is not None and as_int(st) < 0:
                    I.error("ValueError", "negative slice step on a tensor", "shape")
                r = slice_bounds(I, slice(i.start, i.stop), d.size)
                if r is None or as_int(st) is None:
                    shape.append(Dim((Atom(I.fresh("slice"), None),)))
                    lost = lost or d.charged()
                    continue
                a0, ln = r
                ln2 = I.facts.floordiv(ln + as_int(st) - 1, as_int(st))
                role = d.atoms[0].role if len(d.atoms) == 1 else None
                shape.append(Dim.of(ln2, role))
                lost = lost or d.charged()
                if batch_roles(d.atoms) and x.data:
                    mixs.add((I.site(), "stride over batch"))
                continue
            r = slice_bounds(I, i, d.size)
            if r is None:
                shape.append(Dim((Atom(I.fresh("slice"), None),)))
                lost = lost or d.charged()
                continue
            a0, ln = r
            if I.facts.prove_eq(ln, d.size):
                shape.append(d)
                continue
            if x.attrs and "argsort" in x.attrs:
                starts = starts + [(tuple(q.role for q in d.atoms), a0)]
            if batch_roles(d.atoms) and x.data:
                mixs.add((I.site(), "slice of batch"))
            if len(d.atoms) == 1:
                a = d.atoms[0]
                if a.role == "frame" and lags:
                    lags = frozenset((lower(P(l) + a0), lower(P(h) + a0)) for l, h in lags)
                na = a.rep(size=ln, q=qshift(a.q, a0), d=None if a.d is None else (a.d[0], P(a.d[1]) + a0),
                           lag=None if a.lag is None else (lower(P(a.lag[0]) + (a0 if a.lag[1] > 0 else -a0)), a.lag[1]))
                if ln.is_const() and ln.const() == 1:
                    qs = qadd(qs, qat(na.q, 0))
                    if na.d:
                        dl.append((na.d[0], P(na.d[1])))
                    if na.lag is not None:
                        lags = frozenset((lower(P(l) + P(na.lag[0])), lower(P(h) + P(na.lag[0]))) for l, h in lags)
                    shape.append(Dim(()))
                else:
                    shape.append(Dim((na,)))
                if last and toff is not None:
                    toff = lower(P(toff) + a0)
                if last and conv is not None:
                    conv = dict(conv, start=lower(P(conv["start"]) + a0), length=lower(ln))
            else:
                shape.append(Dim.of(ln))
                lost = lost or d.charged()
        elif isinstance(i, (list, tuple)):
            copied = True
            els = list(i)
            if any(isinstance(e, (T, Unk, SymRep)) for e in els) or not all(isinstance(e, (int, Poly)) for e in els):
                shape.append(Dim((Atom(I.fresh("adv"), None),)))
                lost = lost or d.charged()
                continue
            if len(els) == 1 and not isinstance(els[0], bool):
                p = norm_index(I, els[0], d.size)
                check_range(I, p, d.size)
                qs, lags = take(I, x, d, p, qs, dl, lags, mixs)
                if lost_take(d):
                    lost = True
                shape.append(Dim(()))
            else:
                for e in els:
                    check_range(I, norm_index(I, e, d.size), d.size)
                role = d.atoms[0].role if len(d.atoms) == 1 else None
                if batch_roles(d.atoms) and x.data:
                    mixs.add((I.site(), "index of batch"))
                na = Atom(len(els), role, gather_q(I, d.atoms[0].q, H(els)) if len(d.atoms) == 1 else ())
                lost = lost or (len(d.atoms) > 1 and d.charged())
                shape.append(Dim((na,)))
        elif isinstance(i, T):
            copied = True
            if i.shape is None:
                return set_unk(mk(I, (x, i), None, x.dtype))
            role = d.atoms[0].role if len(d.atoms) == 1 else None
            if batch_roles(d.atoms) and x.data:
                mixs.add((I.site(), "index of batch"))
            if len(i.shape) == 0:
                lost = lost or d.charged()
                continue
            for n_, dd in enumerate(i.shape):
                aa = dd.plain()
                if len(aa.atoms) == 1 and aa.atoms[0].role is None and len(i.shape) == 1:
                    aa = Dim((aa.atoms[0].rep(role=role, q=gather_q(I, d.atoms[0].q, H(i)) if len(d.atoms) == 1 else ()),))
                elif d.charged():
                    lost = True
                shape.append(aa)
        else:
            if isinstance(i, bool) or not isinstance(i, (int, Poly)):
                I.error("IndexError", "invalid index %r" % (i,), "shape") if isinstance(i, (str, float)) else None
                out = mk(I, (x,), None, x.dtype)
                return set_unk(out)
            p = norm_index(I, i, d.size)
            check_range(I, p, d.size)
            if last and x.ri is True:
                riax = as_int(p)
                continue
            if last and x.comp and x.comp[0] == "pair":
                riax = ("pair", as_int(p))
                continue
            qs, lags = take(I, x, d, p, qs, dl, lags, mixs)
            if lost_take(d):
                lost = True
    out = view(I, x, shape) if not copied else mk(I, [x] + [i for i in ids if isinstance(i, T)], shape, x.dtype)
    if copied:
        out.lo, out.hi = x.lo, x.hi
        out.qst, out.comp, out.ri = x.qst, x.comp, x.ri
    out.lo = x.lo
    out.lags = lags
    out.mix = out.mix | frozenset(mixs)
    if mixs:
        I.event("mix", "batch selection")
    out.conv = conv
    if toff is not None:
        out.attrs = dict(out.attrs or {}, toff=toff)
    if starts and out.attrs:
        out.attrs = dict(out.attrs, starts=tuple(starts))
    if out.qst == "ok":
        out.qs = qs
        # a fully fixed delta carries no freedom
        out.dl = tuple(z for z in dl if z[0] not in ("#zero", "#maybe"))
        out.qe = None
        if any(z[0] == "#zero" for z in dl):
            set_status(out, "zero")
        elif any(z[0] == "#maybe" for z in dl):
            lost = True
    if x.comp:
        if riax is not None and isinstance(riax, tuple):
            lst = x.comp[1 + (riax[1] or 0)]
            out.comp = None
            comp_finish(I, list(lst), out)
        elif x.comp[0] == "pair":
            out.comp = ("pair",) + tuple([(c, ("ix", H(idx), k), getitem(I, t, drop_last(ids))) for c, k, t in l] for l in x.comp[1:]) if ell_last(ids) else None
            if out.comp is None:
                set_unk(out)
        else:
            out.comp = None
            comp_map(I, x, out, "ix" + H(idx), lambda t: getitem(I, t, idx))
    elif riax is not None:
        cx = view(I, x, x.shape[:-1])
        cx.ri = False
        cx.dtype = x.dtype.cplx() if x.dtype else None
        cx.vn = H("asC", x)
        rest = full[:-1]
        if all(i == slice(None) for i in rest if isinstance(i, slice)) and all(isinstance(i, slice) for i in rest):
            sub = cx
        else:
            sub = getitem(I, cx, tuple(rest))
        out = re_part(I, sub, riax, out)
    if lost and out.qst == "ok":
        set_unk(out)
    cidx = canon_index(I, x0, full)
    out.vn = x0.vn if all(isinstance(i, slice) and i == slice(None) for i in cidx) else H("getitem", x0, cidx)
    if x0.lin is not None:
        from . import linform
        linform.getitem(I, x0, full, out)
    if x0.cells is not None:
        out.cells = None
    return out


def canon_index(I, x, full):
    """the same selection always written the same way (for value numbers)"""
    out = []
    pos = 0
    for i in full:
        if i is None:
            out.append(i)
            continue
        if pos >= len(x.shape):
            return tuple(full)
        n = P(x.shape[pos].size)
        pos += 1
        if isinstance(i, slice):
            a, b, c = i.start, i.stop, i.step
            if isinstance(c, int) and c == 1:
                c = None
            if c is None:
                a, b = slice_end(I, a, n), slice_end(I, b, n)
                if isinstance(a, int) and not isinstance(a, bool) and a == 0:
                    a = None
                if b is not None and isinstance(b, (int, Poly)) and not isinstance(b, bool) and (P(b) - n) == P(0):
                    b = None
            out.append(slice(a, b, c))
        elif isinstance(i, int) and not isinstance(i, bool) and i < 0:
            out.append(lower(n + i))
        else:
            out.append(i)
    # trailing full slices
    while out and isinstance(out[-1], slice) and out[-1] == slice(None):
        out.pop()
    return tuple(out)


def slice_end(I, a, n):
    if isinstance(a, bool) or a is None:
        return a
    if isinstance(a, int) and a < 0:
        r = n + a
        if r.is_const():
            return max(0, int(r.const()))
        return lower(r)
    if isinstance(a, int) and n.is_const() and a > n.const():
        return int(n.const())
    return a


def ell_last(ids):
    return ids and ids[-1] is Ellipsis


def drop_last(ids):
    return tuple(ids)


def pos_not_in(x, full, qd):
    return False


def lost_take(d):
    return len(d.atoms) > 1 and d.charged()


def check_range(I, p, n):
    hi = n - 1 - p
    if not I.facts.prove_ge0(hi):
        w = I.facts.refute_ge0(hi)
        if w is not None:
            I.error("IndexError", "index %r out of range for size %r (e.g. %s)" % (lower(p), lower(n), show_env(w)), "shape")
    if not I.facts.prove_ge0(p):
        w = I.facts.refute_ge0(p)
        if w is not None:
            I.error("IndexError", "index %r out of range for size %r (e.g. %s)" % (lower(p), lower(n), show_env(w)), "shape")


def take(I, x, d, p, qs, dl, lags, mixs):
    if batch_roles(d.atoms) and x.data:
        mixs.add((I.site(), "index of batch"))
    if len(d.atoms) == 1:
        a = d.atoms[0]
        qs = qadd(qs, qat(a.q, p))
        if a.d is not None:
            did = a.d[0]
            at = P(a.d[1]) + p
            old = [v for k, v in dl if k == did]
            if old:
                dl[:] = [(k, v) for k, v in dl if k != did]
                if not I.facts.prove_eq(old[0], at):
                    # off the diagonal when the two positions differ
                    dl.append(("#zero" if I.facts.cmp("==", old[0], at) is False else "#maybe", P(0)))
            else:
                dl.append((did, at))
        if a.lag is not None and lags:
            o, st = a.lag
            sh = P(o) + (p if st > 0 else -p)
            lags = frozenset((lower(P(l) + sh), lower(P(h) + sh)) for l, h in lags)
    return qs, lags


def re_part(I, x, which, out=None):
    """real (0) or imaginary (1) part of complex x"""
    if out is None:
        out = view(I, x, x.shape)
    out.dtype = x.dtype.real() if x.dtype is not None else None
    out.shape = x.shape
    out.ri = False
    out.lo = "any"
    if x.qst != "ok" or x.shape is None:
        set_status(out, x.qst)
        return out
    if x.comp:
        return set_unk(out)
    if neutral(x):
        set_neutral(out)
        return out
    xc = conj(I, x)
    k = ("v", x.vn)
    if which == 0:
        items = [(0.5, k + (0,), x), (0.5, k + (1,), xc)]
    else:
        items = [(-0.5j, k + (0,), x), (0.5j, k + (1,), xc)]
    set_neutral(out)
    out.comp = items
    return out


def conj(I, x):
    out = view(I, x, x.shape)
    out.load, out.eye = x.load, x.eye
    out.lo = x.lo
    if x.dtype is not None and x.dtype.kind != "c":
        out.vn = x.vn
        return out
    if x.comp and x.comp[0] == "pair":
        set_unk(out)
    elif x.comp:
        out.comp = [(complex(c).conjugate(), ("cj", k), conj(I, t)) for c, k, t in x.comp]
    elif x.shape is not None:
        Q.conj(I, x, out)
    out.vn = H("conj", x)
    if x.lin is not None:
        from . import linform
        linform.conj(I, x, out)
    return out


def inplace_target(I, x, what):
    """a write into x: report caller storage, invalidate parents"""
    if x.stor:
        I.event("write_caller", tuple(sorted(x.stor)), what)
    p = x.view_of
    seen = 0
    while p is not None and seen < 20:
        p.vn = H("inplace", p.vn, what, I.site().text)
        p.load, p.eye = None, None
        p.lo = "unk" if p.lo != "any" else p.lo
        p = p.view_of
        seen += 1


def mod_parent(I, x, v):
    p = x.view_of
    n = 0
    while p is not None and n < 20:
        if isinstance(v, (T, Flt)):
            p.data = p.data or v.data
            p.nan = p.nan | v.nan
            p.mix = p.mix | v.mix
            if isinstance(v, T):
                p.grad = p.grad or v.grad
                p.lags = p.lags | v.lags
            p.sev = {**p.sev, **v.sev}
        if not neutral(p):
            set_unk(p)
        p.lin = None
        p = p.view_of
        n += 1


def store_dtype(I, x, V):
    """value V written into x: precision / imaginary part loss"""
    if x.dtype is None or V.dtype is None or V.kind == "scalar" or not V.data:
        return
    if x.dtype.kind != "c" and V.dtype.kind == "c":
        I.event("lossy", "complex value stored into %r" % x.dtype)
    elif V.dtype.kind in "fc" and x.dtype.kind in "fc" and V.dtype.bits > x.dtype.bits:
        I.event("lossy", "%r value stored into %r" % (V.dtype, x.dtype))
    elif V.dtype.kind in "fc" and x.dtype.kind in "ib":
        I.event("lossy", "%r value stored into %r" % (V.dtype, x.dtype))


def setitem(I, x, idx, v):
    I.opcount += 1
    V = to_T(I, v) if not isinstance(v, T) else v
    if isinstance(v, (list, tuple)):
        V = to_T(I, Unk("list value"))
    store_dtype(I, x, V)
    inplace_target(I, x, "item assignment")
    old = x.clone()
    ev = len(I.events)
    sub = getitem(I, x, idx)
    del I.events[ev:]
    # shape check: V broadcast to sub
    if sub.shape is not None and V.shape is not None:
        rs, rv = len(sub.shape), len(V.shape)
        vs = list(V.shape)
        while len(vs) > rs:
            if not vs[0].is1():
                I.error("RuntimeError", "assigned value has too many dimensions", "shape")
            vs.pop(0)
        for i in range(len(vs)):
            dv, ds = vs[len(vs) - 1 - i], sub.shape[rs - 1 - i]
            if dv.is1():
                continue
            if ds.is1():
                if I.facts.refute_eq(dv.size, 1) is not None:
                    I.error("RuntimeError", "assigned value of size %r into size 1" % dv.size, "shape")
                continue
            size_must_equal(I, dv.size, ds.size, "item assignment")
    ids = list(idx) if isinstance(idx, tuple) else [idx]
    full_region = all(i is Ellipsis or (isinstance(i, slice) and i == slice(None)) for i in ids)
    if sub.shape is not None and not full_region and x.shape is not None and len(sub.shape) == len(x.shape):
        full_region = all(isinstance(i, slice) or i is Ellipsis for i in ids) and all(
            I.facts.prove_eq(a.size, b.size) for a, b in zip(sub.shape, x.shape))
    out = x
    newvn = H("setitem", old, idx, v)
    data = (V.data or (x.data and not full_region))
    g = V.grad and not I.nograd
    x.data = data
    x.mix = (frozenset() if full_region else x.mix) | V.mix
    if V.shape is not None and sub.shape is not None:
        pass
    if sub.mix - x.mix and x.data and old.data:
        pass
    x.nan = (frozenset() if full_region else x.nan) | V.nan
    x.lags = (frozenset() if full_region else x.lags) | V.lags
    sev = {} if full_region else dict(x.sev)
    sev.update(V.sev)
    if V.grad and I.nograd:
        sev[I.site()] = "full"
    x.sev = sev
    x.grad = g or (x.grad and not full_region)
    x.lo = V.lo if full_region else (lo_join(x.lo, V.lo) if x.lo != "unk" else "unk")
    if old.qst == "zero" and not old.data and V.lo in ("ge0", "gt0", "gtc"):
        x.lo = "ge0" if not full_region else V.lo
    if x.dtype is not None and x.dtype.kind == "c":
        x.lo = "any" if x.lo in ("ge0", "gt0", "gtc") else x.lo
    x.hi = V.hi if full_region else bool(V.hi and x.hi)
    x.load, x.eye = (V.load, V.eye) if full_region else (None, None)
    x.vn = newvn
    x.spec = x.conv = None
    if V.attrs and "toff" in V.attrs and sub.shape is not None and not old.data and len(ids) and len(sub.shape) == len(x.shape):
        r = slice_bounds(I, ids[-1], old.shape[-1].size) if isinstance(ids[-1], slice) and (Ellipsis in [i for i in ids if not isinstance(i, T)] or len(ids) == len(x.shape)) else None
        x.attrs = dict(x.attrs or {}, toff=lower(P(V.attrs["toff"]) - r[0])) if r else x.attrs
    elif x.attrs and "toff" in x.attrs:
        x.attrs = {k: z for k, z in x.attrs.items() if k != "toff"}
    set_charge_item(I, x, old, sub, V, idx, full_region)
    if old.lin is not None or V.lin is not None:
        from . import linform
        linform.setitem(I, x, old, sub, V, ids, full_region)
    mod_parent(I, x, V)
    note_cells(I, x, old, ids, V)
    return None


def note_cells(I, x, old, ids, V):
    pass


def one_hot(I, x, ids):
    """a constant written at one position of a zero tensor: like a column of the identity, it fits any phase of its axis"""
    n = len(x.shape)
    if Ellipsis in [i for i in ids if not isinstance(i, T)]:
        j = [i is Ellipsis for i in ids].index(True)
        ids = ids[:j] + [slice(None)] * (n - len(ids) + 1) + ids[j + 1:]
    ids = ids + [slice(None)] * (n - len(ids))
    if len(ids) != n:
        return set_unk(x)
    at = []
    for i, (d, k) in enumerate(zip(x.shape, ids)):
        if isinstance(k, slice) and k == slice(None):
            if not d.is1():
                # constant along this axis
                pass
            continue
        if isinstance(k, (list, tuple)) and len(k) == 1:
            k = k[0]
        if isinstance(k, bool) or not isinstance(k, (int, Poly)) or len(d.atoms) > 1:
            return set_unk(x)
        if d.is1() or not d.atoms:
            continue
        p = P(k)
        if isinstance(lower(p), int) and lower(p) < 0:
            p = p + d.size
        at.append((i, p))
    set_neutral(x)
    x.qst = "ok"
    if len(at) != 1:
        return set_unk(x) if at else x
    c = I.flags.get("eyes", 0)
    I.flags["eyes"] = c + 1
    (i, p), did = at[0], ("eye", c)
    x.shape = tuple(Dim(a.rep(d=(did, P(0))) for a in d.atoms) if j == i else d for j, d in enumerate(x.shape))
    x.dl = ((did, p),)
    return x


def set_charge_item(I, x, old, sub, V, idx, full_region):
    if x.shape is None:
        return set_unk(x)
    if is_bad(V):
        return set_status(x, V.qst)
    if is_bad(old):
        return set_status(x, old.qst)
    if full_region:
        if V.shape is None:
            return set_unk(x)
        set_neutral(x)
        x.qst = "ok"
        vs = V
        if V.qst == "zero":
            return set_status(x, "zero")
        # right-align V
        tmp = x.clone()
        r = Q.copy_charge(V, tmp)
        x.shape, x.qs, x.dl, x.qst, x.qe, x.comp, x.ri = tmp.shape, tmp.qs, tmp.dl, tmp.qst, tmp.qe, tmp.comp, tmp.ri
        return x
    if V.qst == "zero" and old.qst == "zero":
        return set_status(x, "zero")
    if V.qst == "unk" or old.qst == "unk" or V.comp or V.ri:
        if V.comp and V.qst == "ok":
            return set_bad(I, x, "real/imaginary part of a phase-dependent quantity stored")
        return set_unk(x)
    if V.qst == "zero":
        # zeroing a region keeps homogeneity
        return x
    ids = list(idx) if isinstance(idx, tuple) else [idx]
    if old.qst == "zero" or old.qe is not None:
        # element table on trailing literal axes
        tail = []
        seen_ell = False
        for i in ids:
            if i is Ellipsis:
                seen_ell = True
                tail = []
            elif seen_ell or not isinstance(i, slice):
                tail.append(i)
        k = len(tail)
        if seen_ell and k and all(isinstance(i, int) or i == slice(None) for i in tail):
            dims = tuple(-k + j for j, i in enumerate(tail) if isinstance(i, int))
            alld = tuple(range(-k, 0))
            lits = [as_int(x.shape[d].size) for d in alld]
            if all(l is not None and l <= 4 for l in lits) and len(V.shape) <= len(sub.shape):
                tab = {}
                if old.qe is not None:
                    if old.qe[0] != alld:
                        return set_unk(x)
                    tab = dict(old.qe[1])
                else:
                    for key in itertools.product(*[range(l) for l in lits]):
                        tab[key] = None
                Vs = Q.settle(I, V)
                if Vs.qst != "ok":
                    return set_unk(x)
                # V may still have axes for the slice(None) entries
                nsl = sum(1 for i in tail if not isinstance(i, int))
                others = Vs.shape[: len(Vs.shape) - nsl] if nsl else Vs.shape
                if any(a.q for d in others for a in d.atoms):
                    return set_unk(x)
                rng = [([as_int(P(i)) % l] if isinstance(i, int) else list(range(l))) for i, l in zip(tail, lits)]
                for key in itertools.product(*rng):
                    q = Vs.qs
                    j = 0
                    for i, kk in zip(tail, key):
                        if not isinstance(i, int):
                            pos = len(Vs.shape) - nsl + j
                            j += 1
                            if pos >= 0:
                                for a in Vs.shape[pos].atoms:
                                    q = qadd(q, qat(a.q, kk))
                    tab[key] = q
                set_neutral(x)
                x.qst = "ok"
                x.qe = (alld, tab)
                if all(v is not None for v in tab.values()):
                    z = Q.fit_elements(I, x)
                    if z is not None:
                        x.shape, x.qs, x.qe, x.qst = z.shape, z.qs, z.qe, z.qst
                return x
        if neutral(V) and old.qst == "zero":
            return one_hot(I, x, ids) if not V.data else set_unk(x)
        if old.qst == "zero" and adopt_zero(I, x, sub, V, ids):
            return x
        return set_unk(x)
    # ordinary region update: homogeneity
    tmp = sub.clone()
    set_neutral(tmp)
    tmp.qst = "ok"
    vv = V
    if len(V.shape) > len(sub.shape):
        vv = V.clone()
        vv.shape = V.shape[len(V.shape) - len(sub.shape):]
    Q.add_charge(I, sub, vv, tmp, "assignment")
    if is_bad(tmp):
        return set_status(x, tmp.qst)
    if tmp.qst == "unk":
        return set_unk(x)
    # x may have been polymorphic (diagonal support): adopt the assigned charge when it is not
    if any(a.d for d in x.shape for a in d.atoms):
        sx = Q.Sep(sub)
        return set_unk(x) if not adopt(I, x, sub, vv) else x
    return x


def adopt_zero(I, x, sub, V, ids):
    """a charged value is written into part of an all-zero tensor: infer the charge of the whole"""
    nd = len(x.shape)
    if any(i is None or isinstance(i, (list, T, bool)) for i in ids):
        return False
    if Ellipsis in [i for i in ids if not isinstance(i, (Poly, T))]:
        k = [j for j, i in enumerate(ids) if i is Ellipsis][0]
        ids = ids[:k] + [slice(None)] * (nd - len(ids) + 1) + ids[k + 1:]
    ids = ids + [slice(None)] * (nd - len(ids))
    if len(ids) != nd or V.qe is not None or any(len(d.atoms) > 1 for d in x.shape):
        return False
    qs = dict(V.qs)
    add = {}
    for (g, o), c in V.qs:
        hits = [i for i, p in enumerate(ids) if isinstance(p, (int, Poly)) and not isinstance(p, bool) and P(o) == P(p)]
        if not hits:
            continue
        if len(hits) > 1 or P(o).is_const():
            return False
        qs.pop((g, o))
        add[hits[0]] = qadd(add.get(hits[0], ()), (((g, P(0)), c),))
    # kept axes: V right-aligned with the selected region
    kept = [i for i, p in enumerate(ids) if isinstance(p, slice)]
    off = len(kept) - len(V.shape)
    if off < 0:
        return False
    for j, d in enumerate(V.shape):
        for a in d.atoms:
            if a.q:
                i = kept[off + j]
                p = ids[i]
                if p.start not in (None, 0) or len(d.atoms) != 1:
                    return False
                add[i] = qadd(add.get(i, ()), a.q)
    set_neutral(x)
    x.qst = "ok"
    x.shape = tuple(Dim(a.rep(q=add.get(i, ())) for a in d.atoms) for i, d in enumerate(x.shape))
    x.qs = Q.qn(qs)
    return True


def adopt(I, x, sub, v):
    """x is diagonal-supported; after a non-diagonal write fix its charge"""
    # move the charge so that the written region agrees; only the simple case of
    # equal ranks is handled
    if len(sub.shape) != len(x.shape) or len(v.shape) != len(x.shape):
        # integer-indexed axis: try all charges already present in v
        cand = x.clone()
        sx = Q.Sep(x)
        # nothing to decide: drop polymorphism only if x is already charged
        if any(a.q for d in x.shape for a in d.atoms):
            x.shape = tuple(Dim(a.rep(d=None) for a in d.atoms) for d in x.shape)
            return True
        return False
    sx = Q.Sep(x)
    off = 0
    for i, d in enumerate(v.shape):
        for j, a in enumerate(d.atoms):
            want = a.q
            # written region may start at an offset: compare with sub's atom
            sa = sub.shape[i].atoms[j] if j < len(sub.shape[i].atoms) else None
            if sa is None:
                return False
            diff = qadd(sa.q, want, -1)
            if not Q.is_zero_q(I, diff):
                xo = x.shape[i].atoms[j]
                # translate by the slice offset between x and sub (delta offsets tell it)
                sh = P(0)
                if xo.d and sa.d:
                    sh = P(sa.d[1]) - P(xo.d[1])
                if not sx.shift((i, j), qshift(diff, -sh)):
                    return False
    x.shape = tuple(Dim(a.rep(q=sx.q[(i, j)], d=None) for j, a in enumerate(d.atoms)) for i, d in enumerate(x.shape))
    x.qs = sx.qs
    return True


def inplace_bin(I, op, x, v):
    """x op= v"""
    if x.kind == "scalar":
        return binop(I, op, x, v)
    r = binop(I, op, x, v)
    if not isinstance(r, T):
        inplace_target(I, x, "augmented assignment")
        return x
    inplace_update(I, x, r, "augmented assignment")
    return x


def inplace_update(I, x, r, what):
    if x.dtype is not None and r.dtype is not None and r.dtype is not x.dtype and r.data:
        if CAT[r.dtype.kind] > CAT[x.dtype.kind]:
            I.error("RuntimeError", "in-place result type %r cannot be cast to %r" % (r.dtype, x.dtype), "dtype")
        if r.dtype.bits > x.dtype.bits:
            I.event("lossy", "%r stored in place into %r" % (r.dtype, x.dtype))
    if r.shape is not None and x.shape is not None:
        if len(r.shape) != len(x.shape):
            I.error("RuntimeError", "in-place operation changes the shape", "shape")
        for a, b in zip(r.shape, x.shape):
            if not I.facts.prove_eq(a.size, b.size) and I.facts.refute_eq(a.size, b.size) is not None:
                I.error("RuntimeError", "in-place operation changes the shape", "shape")
    inplace_target(I, x, what)
    dt = x.dtype
    x.become(r)
    x.dtype = dt
    mod_parent(I, x, r)
    return x
