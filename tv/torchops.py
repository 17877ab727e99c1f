"""Registry of torch functions / tensor methods over the abstract domain."""
import math
import os
import sys
import traceback

from .poly import P, Poly, lower, exact_div
from .vals import *
from . import charge as Q
from . import ops as O
from .ops import (mk, view, dim_index, dims_list, merge_dim, bshape, to_T, lo_join, lo_mul, lo_add, ch_copy, note_mix,
                  batch_roles, as_int, comp_map, size_must_equal, unk_from, reduce_, danger, gather_q)
from .charge import set_neutral, set_unk, set_bad, set_status, is_bad, neutral, qadd, qneg, qat, qshift

STRICT = bool(os.environ.get("TV_STRICT"))
OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


class BadCall(Exception):
    """torch would reject the arguments"""


def call_op(I, name, args, kwargs):
    f = OPS.get(name)
    if f is None:
        I.note_unmodelled("torch." + name)
        return unk_from(I, name, list(args) + list(kwargs.values()))
    kwargs = dict(kwargs)
    for a, b in (("axis", "dim"), ("keepdims", "keepdim"), ("input", None), ("tensor", None)):
        if a in kwargs and (name not in ("solve", "pad")):
            if b is None:
                args = [kwargs.pop(a)] + list(args)
            else:
                kwargs[b] = kwargs.pop(a)
    try:
        r = f(I, *args, **kwargs)
    except (AbsRaise, Cut, Infeasible):
        raise
    except Exception as e:
        if STRICT:
            sys.stderr.write("op %s at %s\n" % (name, I.site()))
            raise
        I.note_unmodelled("torch.%s(%s)" % (name, type(e).__name__))
        return unk_from(I, name, list(args) + list(kwargs.values()))
    setvn(r, name, args, kwargs)
    return r


def setvn(r, name, args, kwargs):
    if isinstance(r, T):
        if r.vn is None:
            r.vn = H(name, list(args), kwargs)
    elif isinstance(r, (tuple, list)):
        for i, x in enumerate(r):
            if isinstance(x, T) and x.vn is None:
                x.vn = H(name, i, list(args), kwargs)


def tens(I, *xs):
    return all(isinstance(x, T) for x in xs)


# ------------------------------------------------------------------ unary
def un(I, name, x, lo=None, hi=None, zero=False, charge="nonlin", real=False, flt=True, nan=frozenset(), sevkill=False):
    if not isinstance(x, T):
        if isinstance(x, (int, float)):
            t = to_T(I, x)
            x = t
        elif isinstance(x, Flt):
            r = Flt(H(name, x), lo or "any", bool(hi), x.data)
            r.sev, r.mix, r.nan, r.grad = dict(x.sev), x.mix, x.nan, x.grad
            return r
        else:
            return unk_from(I, name, (x,))
    I.opcount += 1
    dt = x.dtype
    if dt is not None and flt and dt.kind in "ib":
        dt = I.default_dtype
    if real and dt is not None:
        dt = dt.real()
    out = mk(I, (x,), x.shape, dt)
    if x.lo == "unk" and lo is None:
        lo = "unk"
    out.lo = lo or "any"
    if out.dtype is not None and out.dtype.kind == "c" and out.lo in ("ge0", "gt0", "gtc"):
        out.lo = "any" if out.lo == "ge0" else "nz"
    out.hi = bool(hi)
    out.nan = out.nan | nan
    if x.qst == "zero" and zero:
        set_status(out, "zero")
        out.lo = "ge0"
        return out
    if charge == "nonlin":
        Q.nonlinear(I, x, out, name)
    elif charge == "abs":
        Q.absolute(I, x, out)
    elif charge == "copy":
        if x.shape is not None:
            ch_copy(x, out)
        else:
            out.qst = x.qst
    if sevkill and out.grad:
        out.sev = dict(out.sev)
        out.sev[I.site()] = "full"
        out.grad = False
    return out


def unary(I, name, x):
    return call_op(I, name, [x], {})


O.unary = unary


@op("neg", "negative")
def neg(I, x):
    if not isinstance(x, T):
        return un(I, "neg", x)
    lo = "nz" if x.lo in ("gt0", "gtc", "nz") else ("unk" if x.lo == "unk" else "any")
    out = un(I, "neg", x, lo=lo, hi=x.lo in ("ge0", "gt0", "gtc"), zero=True, charge="copy")
    if x.comp and x.comp[0] != "pair":
        out.comp = [(-c, k, t) for c, k, t in x.comp]
    from . import linform
    linform.scale(I, x, -1, out)
    return out


@op("pos", "positive")
def pos(I, x):
    return x


@op("bitwise_not", "logical_not")
def bnot(I, x):
    out = un(I, "not", x, lo="unk", charge="copy", flt=False)
    if x.attrs and "cmp" in x.attrs:
        o, A, B = x.attrs["cmp"]
        out.attrs = {"cmp": ({"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[o], A, B)}
    return out


@op("abs", "absolute", "abs_")
def abs_(I, x):
    lo = {"gtc": "gtc", "gt0": "gt0", "nz": "gt0", "unk": "unk"}.get(getattr(x, "lo", "any"), "ge0")
    out = un(I, "abs", x, lo=lo, hi=getattr(x, "hi", False), zero=True, charge="abs", real=True, flt=False)
    if isinstance(x, T) and isinstance(out, T):
        out.attrs = {"abs_of": x.vn}
        if x.ri is True:
            set_bad(I, out, "magnitude of separate real and imaginary parts")
        if neutral(x):
            set_neutral(out)
    return out


@op("square")
def square(I, x):
    if not isinstance(x, T):
        return unk_from(I, "square", (x,))
    real = x.dtype is None or x.dtype.kind != "c"
    lo = {"nz": "gt0", "any": "ge0"}.get(x.lo, x.lo)
    out = un(I, "square", x, lo=lo, hi=x.hi, zero=True, charge="none", flt=False)
    if out.qst == "zero":
        return out
    if x.shape is None:
        return set_unk(out)
    if x.ri is True:
        return O.ri_square(I, x, out)
    O.ch_mul(I, x, x, out)
    return out


@op("sqrt", "sqrt_")
def sqrt(I, x):
    if isinstance(x, T) and x.dtype is not None and x.dtype.kind == "c":
        return un(I, "sqrt", x, zero=True)
    lo = getattr(x, "lo", "any")
    return un(I, "sqrt", x, lo=lo if lo in ("ge0", "gt0", "gtc", "unk") else "ge0", hi=getattr(x, "hi", False), zero=True)


@op("rsqrt")
def rsqrt(I, x):
    lo = x.lo
    return un(I, "rsqrt", x, lo="gt0" if lo in ("gt0", "gtc") else ("unk" if lo == "unk" else "ge0"), hi=lo == "gtc",
              nan=danger(I, x, "rsqrt"))


@op("reciprocal")
def reciprocal(I, x):
    if not isinstance(x, T):
        return unk_from(I, "reciprocal", (x,))
    r = O.ew2(I, "div", 1.0, x)
    return r


@op("log", "log10", "log2", "log_")
def log(I, x):
    return un(I, "log", x, lo="any", hi=getattr(x, "hi", False), nan=danger(I, x, "logarithm") if isinstance(x, T) else frozenset())


@op("log1p")
def log1p(I, x):
    return un(I, "log1p", x, lo=x.lo if x.lo in ("ge0", "gt0", "gtc", "unk") else "any", hi=x.hi, zero=True)


@op("exp")
def exp(I, x):
    return un(I, "exp", x, lo="gt0", hi=getattr(x, "hi", False))


@op("expm1")
def expm1(I, x):
    return un(I, "expm1", x, lo=x.lo if x.lo in ("ge0", "gt0", "gtc") else "any", hi=x.hi, zero=True)


@op("sigmoid")
def sigmoid(I, x):
    # strictly positive in exact arithmetic but may underflow to zero in floating point
    out = un(I, "sigmoid", x, lo="ge0", hi=True)
    I.nsig = getattr(I, "nsig", 0) + 1
    if x.qst != "zero" and x.data:
        out.hi = Aff(I.nsig, 1.0, 0.0)
    return out


@op("softmax")
def softmax(I, x, dim=None, dtype=None):
    out = un(I, "softmax", x, lo="ge0", hi=True)
    ds = dims_list(I, x, dim) if x.shape is not None and dim is not None else []
    if x.data:
        note_mix(I, out, [a for d in ds or [] for a in x.shape[d].atoms], "softmax")
    return out


@op("tanh", "sin", "atan", "erf", "sinh", "asinh")
def tanh(I, x):
    return un(I, "tanh", x, lo="any", hi=True, zero=True)


@op("cos", "angle", "cosh", "acos")
def cos(I, x):
    return un(I, "cos", x, real=True, hi=True)


@op("relu", "relu_", "leaky_relu", "elu", "gelu", "softsign", "silu", "hardtanh")
def relu(I, x, *a, **k):
    return un(I, "relu", x, lo="ge0", hi=x.hi, zero=True)


@op("softplus")
def softplus(I, x, *a, **k):
    return un(I, "softplus", x, lo="ge0", hi=x.hi)


@op("sgn")
def sgn(I, x):
    return un(I, "sgn", x, hi=True, zero=True, charge="copy")


@op("sign")
def sign(I, x):
    if x.dtype is not None and x.dtype.kind == "c":
        I.error("RuntimeError", "sign is not implemented for complex tensors", "dtype")
    return un(I, "sign", x, hi=True, zero=True, sevkill=True)


@op("round", "floor", "ceil", "trunc")
def rounds(I, x, **k):
    return un(I, "round", x, zero=True, sevkill=True)


@op("nan_to_num", "nan_to_num_")
def nan_to_num(I, x, *a, **k):
    out = un(I, "nan_to_num", x, lo="unk" if x.lo != "ge0" else "ge0", charge="copy")
    out.nan = frozenset()
    return out


@op("isnan", "isfinite", "isinf")
def isnan(I, x):
    out = un(I, "isnan", x, lo="unk", flt=False)
    out.dtype = BOOL
    out.nan = frozenset()
    return out


@op("clone", "contiguous", "dropout", "alpha_dropout", "cpu_clone", "requires_grad_clone")
def clone(I, x, *a, **k):
    if not isinstance(x, T):
        return unk_from(I, "clone", (x,))
    out = view(I, x, x.shape)
    out.stor = frozenset()
    out.view_of = None
    out.load, out.eye, out.lin, out.spec, out.conv, out.val = x.load, x.eye, x.lin, x.spec, x.conv, x.val
    out.attrs = x.attrs
    out.vn = x.vn
    return out


@op("contiguous", "requires_grad_", "resolve_conj", "pin_memory", "share_memory_")
def contiguous(I, x, *a, **k):
    # may return the tensor itself
    return x


@op("detach", "detach_", "data_")
def detach(I, x):
    out = view(I, x, x.shape)
    out.load, out.eye, out.lin, out.val = x.load, x.eye, x.lin, x.val
    out.attrs = x.attrs
    out.vn = x.vn
    if x.grad:
        out.grad = False
        out.sev = dict(out.sev)
        out.sev[I.site()] = "full"
    return out


@op("real")
def real(I, x):
    if not isinstance(x, T):
        return x if isinstance(x, (int, float, Flt)) else unk_from(I, "real", (x,))
    if x.dtype is not None and x.dtype.kind != "c":
        return x
    lo = "ge0" if x.qst == "zero" else ("unk" if x.lo == "unk" else "any")
    if x.qst == "zero" or x.shape is None:
        out = view(I, x, x.shape)
        out.dtype = x.dtype.real() if x.dtype else None
        out.lo = lo
        return out
    out = O.re_part(I, x, 0)
    out.lo = lo
    return out


@op("imag")
def imag(I, x):
    if x.dtype is not None and x.dtype.kind != "c":
        I.error("RuntimeError", "imag is not implemented for real tensors", "dtype")
    if x.qst == "zero" or x.shape is None:
        out = view(I, x, x.shape)
        out.dtype = x.dtype.real() if x.dtype else None
        out.lo = "ge0" if x.qst == "zero" else x.lo
        return out
    return O.re_part(I, x, 1)


@op("conj", "conj_physical", "resolve_neg")
def conj(I, x):
    if not isinstance(x, T):
        return unk_from(I, "conj", (x,))
    out = O.conj(I, x)
    if x.spec is not None and out.spec is None:
        out.spec = dict(x.spec, conj=not x.spec.get("conj", False))
    return out


@op("view_as_real")
def view_as_real(I, x):
    if x.dtype is not None and x.dtype.kind != "c":
        I.error("RuntimeError", "view_as_real on a real tensor", "dtype")
    if x.shape is None:
        out = view(I, x, None)
        out.dtype = x.dtype.real() if x.dtype else None
        return set_unk(out)
    x = Q.settle(I, x)
    out = view(I, x, tuple(x.shape) + (Dim((Atom(2, "ri"),)),))
    out.dtype = x.dtype.real() if x.dtype else None
    if out.qst == "ok" and not neutral(x):
        if x.comp:
            set_unk(out)
        else:
            out.ri = True
    if x.lo != "unk":
        out.lo = "any"
    out.attrs = {"asreal": x}
    return out


@op("view_as_complex", "complex")
def view_as_complex(I, x, im=None):
    if im is not None:
        return complex_(I, x, im)
    if x.dtype is not None and x.dtype.kind == "c":
        I.error("RuntimeError", "view_as_complex on a complex tensor", "dtype")
    if x.shape is None:
        out = view(I, x, None)
        out.dtype = x.dtype.cplx() if x.dtype else None
        return set_unk(out)
    if not x.shape:
        I.error("RuntimeError", "view_as_complex on a 0-dimensional tensor", "shape")
    size_must_equal(I, x.shape[-1].size, P(2), "view_as_complex")
    out = view(I, x, x.shape[:-1])
    out.dtype = x.dtype.cplx() if x.dtype else None
    if out.dtype is not None and x.dtype not in (F32, F64, F16):
        I.error("RuntimeError", "view_as_complex on %r" % x.dtype, "dtype")
    out.ri = False
    out.lo = "any" if x.lo != "unk" else "unk"
    if x.comp and x.comp[0] == "pair":
        pair_complex(I, x, out)
    elif x.ri == "sq" or (x.comp and x.qst == "ok"):
        set_unk(out)
    return out


def pair_complex(I, x, out):
    """('pair', re, im): complex number re + i im"""
    _, re, im = x.comp
    set_neutral(out)
    items = []
    for part, f in ((re, 1.0), (im, 1j)):
        if is_bad(part):
            return set_status(out, part.qst)
        if part.qst == "unk":
            return set_unk(out)
        items += [(f * c, k, t) for c, k, t in O.comp_of(I, part)]
    O.comp_finish(I, items, out)
    if out.comp:
        # several different phase characters remain
        items = out.comp
        set_bad(I, out, "complex number assembled from parts that rotate differently")
    return out


def complex_(I, re, im):
    if not tens(I, re, im):
        return unk_from(I, "complex", (re, im))
    out = mk(I, (re, im), bshape(I, (re, im), "complex"), promote(re.dtype, im.dtype).cplx() if re.dtype and im.dtype else None)
    if re.comp or im.comp:
        t = mk(I, (re, im), out.shape, re.dtype)
        t.comp = ("pair", re, im)
        return pair_complex(I, t, out)
    Q.add_charge(I, re, im, out)
    return out


# ------------------------------------------------------------------ clamp & friends
@op("clamp", "clip", "clamp_", "clip_")
def clamp(I, x, min=None, max=None):
    if not isinstance(x, T):
        return unk_from(I, "clamp", (x, min, max))
    if x.dtype is not None and x.dtype.kind == "c":
        I.error("RuntimeError", "clamp is not supported for complex types", "dtype")
    ins = [x] + [v for v in (min, max) if isinstance(v, (T, Flt, Unk))]
    shape = x.shape
    if isinstance(min, T) or isinstance(max, T):
        shape = bshape(I, [v for v in (x, min, max) if isinstance(v, T)], "clamp")
    out = mk(I, ins, shape, x.dtype)
    lo, hi = x.lo, x.hi if min is max is None else bool(x.hi)
    if min is not None:
        ml = O.scal_lo(I, min)
        if ml in ("gtc", "gt0"):
            lo = ml if lo != "gtc" else "gtc"
        elif ml == "ge0":
            lo = "ge0" if lo in ("any", "nz", "unk") else lo
        elif ml == "unk":
            lo = "unk" if lo in ("any", "ge0", "nz") else lo
        else:
            lo = lo if lo in ("ge0", "gt0", "gtc") else ("unk" if lo == "unk" else "any")
    if max is not None:
        hi = True
        mx = O.scal_lo(I, max)
        if mx not in ("gtc", "gt0"):
            lo = "any" if mx in ("any", "nz") else ("ge0" if lo in ("ge0", "gt0", "gtc") else lo)
    out.lo, out.hi = lo, hi
    zero = x.qst == "zero" and (min is None or O.scal_zero(min) or isinstance(min, (int, float)) and min <= 0) and \
        (max is None or isinstance(max, (int, float)) and max >= 0)
    if zero:
        return set_status(out, "zero")
    Q.nonlinear(I, x, out, "clamp")
    return out


@op("clamp_min")
def clamp_min(I, x, min):
    return clamp(I, x, min=min)


@op("clamp_max")
def clamp_max(I, x, max):
    return clamp(I, x, max=max)


@op("maximum", "fmax")
def maximum(I, a, b):
    if not tens(I, a, b):
        return unk_from(I, "maximum", (a, b))
    out = mk(I, (a, b), bshape(I, (a, b), "maximum"), promote(a.dtype, b.dtype) if a.dtype is not b.dtype else a.dtype)
    if a.dtype and b.dtype:
        out.dtype = O.res_dtype(I, a, b)
    order = ("gtc", "gt0", "ge0")
    out.lo = "unk" if "unk" in (a.lo, b.lo) else "any"
    for k in order:
        if k in (a.lo, b.lo):
            out.lo = k
            break
    out.hi = bool(a.hi and b.hi)
    if a.qst == "zero" and b.qst == "zero":
        return set_status(out, "zero")
    Q.nonlinear(I, b, out, "maximum")
    if out.qst == "ok":
        Q.nonlinear(I, a, out, "maximum")
    return out


@op("minimum", "fmin")
def minimum(I, a, b):
    if not tens(I, a, b):
        return unk_from(I, "minimum", (a, b))
    out = maximum(I, a, b)
    out.lo = lo_join(a.lo, b.lo)
    out.hi = bool(a.hi or b.hi)
    return out


def refine_lo(I, cond, val, truth):
    """lower bound of val given that cond has the given truth value"""
    c = cond.attrs.get("cmp") if cond.attrs else None
    if c is None:
        return None
    o, A, B = c
    if not truth:
        o = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}.get(o)
    for X, Y, oo in ((A, B, o), (B, A, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o))):
        absx = X.attrs.get("abs_of") if X.attrs else None
        isx = X.vn is not None and X.vn == val.vn
        isabs = absx is not None and absx == val.vn
        if not (isx or isabs):
            continue
        if oo in (">", ">=") and Y.lo in ("gtc", "gt0"):
            return "nz" if isabs else Y.lo
        if oo == ">" and Y.lo == "ge0":
            return "nz" if isabs else "gt0"
        if oo == "!=" and O.scal_zero(Y.val if Y.val is not None else 1):
            return "nz"
    return None


def decided_zero(I, cond):
    """truth of a comparison whose data side is identically zero, or None"""
    c = cond.attrs.get("cmp") if cond.attrs else None
    if c is None:
        return None
    o, A, B = c

    def s(x):
        if x.qst == "zero" or (x.val is not None and x.val == 0):
            return 0
        if x.lo in ("gtc", "gt0"):
            return 1
        if x.val is not None and x.val < 0:
            return -1
        return None
    if A.qst != "zero" and B.qst != "zero":
        return None
    a, b = s(A), s(B)
    if a is None or b is None:
        return None
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}.get(o)


@op("where")
def where(I, cond, a=None, b=None):
    if a is None:
        return tuple(unk_from(I, "where", (cond,)) for _ in range(1))
    if not isinstance(cond, T):
        return unk_from(I, "where", (cond, a, b))
    A, B = to_T(I, a), to_T(I, b)
    shape = bshape(I, (cond, A, B), "where")
    if A.kind == "scalar" and B.kind == "scalar":
        dt = I.default_dtype
    else:
        dt = O.res_dtype(I, A, B)
    z = decided_zero(I, cond)
    la = refine_lo(I, cond, A, True) or A.lo
    lb = refine_lo(I, cond, B, False) or B.lo
    ins = [cond, A, B] if z is None else [cond, A if z else B]
    out = mk(I, ins, shape, dt)
    if z is not None:
        out.lo = la if z else lb
    else:
        out.lo = lo_join(la, lb)
        if "nz" in (la, lb) and {la, lb} <= {"nz", "gt0", "gtc"}:
            out.lo = "nz"
    if dt is not None and dt.kind == "c":
        nz = {"nz", "gt0", "gtc"}
        out.lo = "nz" if (la in nz and lb in nz) else ("unk" if "unk" in (la, lb) else "any")
    out.hi = bool(A.hi and B.hi)
    if is_bad(cond):
        return set_status(out, cond.qst)
    if z is not None:
        return ch_copy_b(A if z else B, out)
    if not A.data and not B.data:
        return Q.add_charge(I, A, B, out, "selection")
    if not A.data:
        return ch_copy_b(B, out)
    if not B.data:
        return ch_copy_b(A, out)
    if A.comp or B.comp:
        return set_unk(out)
    return Q.add_charge(I, A, B, out, "selection")


def ch_copy_b(src, out):
    if src.shape is None or out.shape is None:
        return set_unk(out)
    return Q.copy_charge(src, out)


@op("masked_fill", "masked_fill_")
def masked_fill(I, x, mask, value):
    return where(I, mask, value, x)


# ------------------------------------------------------------------ shape operations
def as_sizes(I, args):
    """flatten size arguments"""
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    out = []
    for a in args:
        if isinstance(a, SymRep):
            n = lower(a.n)
            if isinstance(n, int):
                out.extend([a.elem] * n)
                continue
            return None
        if isinstance(a, bool) or isinstance(a, (Unk, Flt, T, str, float)):
            if isinstance(a, float):
                I.error("TypeError", "size must be an integer, got a float", "op")
            return None
        if not isinstance(a, (int, Poly)):
            return None
        out.append(P(a))
    return out


@op("reshape", "view", "reshape_as", "view_as")
def reshape(I, x, *shape, **kw):
    if "shape" in kw:
        shape = (kw["shape"],)
    if "size" in kw:
        shape = (kw["size"],)
    if not isinstance(x, T):
        return unk_from(I, "reshape", (x,))
    if len(shape) == 1 and isinstance(shape[0], T):
        shape = (Size(d.size for d in shape[0].shape),)
    if len(shape) == 1 and isinstance(shape[0], DT):
        return to_(I, x, shape[0])
    sz = as_sizes(I, shape)
    if sz is None or x.shape is None:
        out = view(I, x, None)
        if sz is not None and -1 not in [as_int(s) for s in sz]:
            out.shape = tuple(Dim.of(s) for s in sz)
        if not neutral(x) and x.qst != "zero":
            set_unk(out)
        return out
    total = P(1)
    for d in x.shape:
        total = total * d.size
    neg = [i for i, s in enumerate(sz) if as_int(s) == -1]
    if len(neg) > 1:
        I.error("RuntimeError", "only one dimension can be inferred", "shape")
    known = P(1)
    for i, s in enumerate(sz):
        if i not in neg:
            known = known * s
    if neg:
        q = exact_div(total, known)
        if q is None:
            q = I.facts.floordiv(total, known) if total.is_const() and known.is_const() else None
        if q is None:
            # undecidable division: is it ever inexact?
            w = I.facts.refute(lambda e: (lambda k, t: k != 0 and t % k == 0)(O.eval_poly(known, e, I.facts), O.eval_poly(total, e, I.facts)), (known, total))
            if w is not None:
                I.error("RuntimeError", "reshape of %r elements into %s (e.g. %s)" % (total, [lower(s) for s in sz], O.show_env(w)), "shape")
            q = I.fresh("reshape")
        elif q is not None and total.is_const() and known.is_const():
            if int(total.const()) % int(known.const()):
                I.error("RuntimeError", "reshape of %r elements into %s" % (total, [lower(s) for s in sz]), "shape")
        sz[neg[0]] = q
    else:
        if not I.facts.prove_eq(total, known):
            w = I.facts.refute_eq(total, known)
            if w is not None:
                I.error("RuntimeError", "reshape of %r elements into %s (e.g. %s)" % (total, [lower(s) for s in sz], O.show_env(w)), "shape")
    return regroup(I, x, sz)


def regroup(I, x, sz):
    x = Q.settle(I, x)
    src = []
    for i, d in enumerate(x.shape):
        src.extend(d.atoms)
    dims = []
    lost = False
    mixs = set()
    if x.ri:
        if not (sz and as_int(sz[-1]) == 2 and x.shape[-1].atoms):
            lost = True
    src = list(src)
    j = 0
    tgt = list(sz)
    k = 0
    while k < len(tgt):
        s = tgt[k]
        if as_int(s) == 1:
            dims.append(Dim(()))
            k += 1
            continue
        # take atoms whose product equals s
        acc = []
        prod = P(1)
        ok = False
        jj = j
        while jj < len(src):
            acc.append(src[jj])
            prod = prod * src[jj].size
            jj += 1
            if prod == s or I.facts.prove_eq(prod, s):
                ok = True
                break
            if len(acc) == 1:
                # split the atom
                q = exact_div(acc[0].size, s)
                if q is not None and as_int(q) != 1:
                    a = acc[0]
                    rest = a.rep(size=q)
                    head = a.rep(size=s)
                    if a.q or a.d or a.lag:
                        lost = lost or bool(a.q)
                        head, rest = head.rep(q=(), d=None, lag=None), rest.rep(q=(), d=None, lag=None)
                    src[j:j + 1] = [head, rest]
                    acc = [head]
                    jj = j + 1
                    ok = True
                    break
        if ok:
            # a following run of size-1 products never occurs; atoms of size 1 are dropped earlier
            dims.append(Dim(acc))
            j = jj
            k += 1
            continue
        # misaligned: find the smallest aligned window
        win = None
        for k2 in range(k + 1, len(tgt) + 1):
            pt = P(1)
            for s2 in tgt[k:k2]:
                pt = pt * s2
            ps = P(1)
            for j2 in range(j, len(src) + 1):
                if ps == pt or I.facts.prove_eq(ps, pt):
                    win = (k2, j2)
                    break
                if j2 < len(src):
                    ps = ps * src[j2].size
            if win:
                break
        if win is None:
            win = (len(tgt), len(src))
        k2, j2 = win
        atoms = src[j:j2]
        lost = lost or any(a.q or a.d for a in atoms)
        if batch_roles(atoms) and x.data and len({a.role for a in atoms}) > 1:
            mixs.add((I.site(), "batch axes interleaved by reshape"))
        for s2 in tgt[k:k2]:
            dims.append(Dim.of(s2))
        j, k = j2, k2
    out = view(I, x, dims)
    out.mix = out.mix | frozenset(mixs)
    if mixs:
        I.event("mix", "reshape")
    if lost and out.qst == "ok":
        set_unk(out)
    elif out.comp:
        if out.comp[0] == "pair":
            set_unk(out)
        else:
            comp_map(I, x, out, "reshape%r" % ([repr(s) for s in sz],), lambda t: regroup(I, t, sz))
    from . import linform
    linform.reshape(I, x, sz, out)
    return out


@op("flatten")
def flatten(I, x, start_dim=0, end_dim=-1):
    if x.shape is None:
        return reshape(I, x, (-1,))
    a, b = dim_index(I, x, start_dim), dim_index(I, x, end_dim)
    sz = [d.size for d in x.shape]
    p = P(1)
    for s in sz[a:b + 1]:
        p = p * s
    return regroup(I, x, sz[:a] + [p] + sz[b + 1:])


@op("unflatten")
def unflatten(I, x, dim, sizes):
    d = dim_index(I, x, dim)
    sz = [q.size for q in x.shape]
    return reshape(I, x, tuple(sz[:d]) + tuple(sizes) + tuple(sz[d + 1:]))


def permute_dims(I, x, perm, name):
    out = view(I, x, [x.shape[p] for p in perm])
    n = len(perm)
    if x.ri and perm[-1] != n - 1:
        if x.ri is True:
            set_unk(out)
    if x.comp and x.comp[0] == "pair":
        set_unk(out)
    elif x.comp:
        comp_map(I, x, out, "perm%r" % (tuple(p - n for p in perm),), lambda t: permute_dims(I, t, perm, name) if len(t.shape) == n else set_unk(t.clone()))
    if x.qe is not None:
        inv = {p: i for i, p in enumerate(perm)}
        dims = tuple(d % n for d in x.qe[0])
        nd = [inv[d] - n for d in dims]
        order = sorted(range(len(nd)), key=lambda i: nd[i])
        tab = {tuple(k[i] for i in order): v for k, v in x.qe[1].items()}
        out.qe = (tuple(nd[i] for i in order), tab)
    last2 = set(perm[-2:]) == {n - 1, n - 2}
    if last2:
        out.eye, out.load = x.eye, x.load
    if perm[-1] != n - 1:
        out.conv = x.conv if x.conv is None else dict(x.conv, axis=perm.index(x.conv["axis"] % n) - n)
        out.spec = x.spec
    else:
        out.conv, out.spec = x.conv, x.spec
        if out.conv is not None:
            out.conv = dict(x.conv, axis=perm.index(x.conv["axis"] % n) - n)
    from . import linform
    linform.permute(I, x, perm, out)
    return out


@op("transpose", "swapaxes", "swapdims", "transpose_")
def transpose(I, x, dim0=None, dim1=None, **kw):
    dim0 = kw.get("axis0", dim0)
    dim1 = kw.get("axis1", dim1)
    if not isinstance(x, T) or x.shape is None:
        if isinstance(x, T):
            out = view(I, x, None)
            return set_unk(out) if not neutral(x) else out
        return unk_from(I, "transpose", (x,))
    a, b = dim_index(I, x, dim0), dim_index(I, x, dim1)
    if a is None or b is None:
        return set_unk(view(I, x, None))
    perm = list(range(len(x.shape)))
    perm[a], perm[b] = perm[b], perm[a]
    out = permute_dims(I, x, perm, "transpose")
    out.vn = H("perm", x, tuple(perm)) if a != b else x.vn
    return out


@op("t", "T_attr")
def t_(I, x):
    if x.shape is None:
        return view(I, x, None)
    perm = list(range(len(x.shape)))[::-1]
    out = permute_dims(I, x, perm, "T")
    out.vn = H("perm", x, tuple(perm))
    return out


@op("mT", "adjoint_")
def mT(I, x):
    return transpose(I, x, -2, -1)


@op("mH", "adjoint", "H")
def mH(I, x):
    return O.conj(I, transpose(I, x, -2, -1))


@op("permute")
def permute(I, x, *dims, **kw):
    if "dims" in kw:
        dims = kw["dims"]
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    if x.shape is None:
        return view(I, x, None)
    n = len(x.shape)
    if any(isinstance(d, (SymRep, Unk)) for d in dims):
        return set_unk(view(I, x, None))
    if len(dims) != n:
        I.error("RuntimeError", "permute of a %d-dimensional tensor with %d indices" % (n, len(dims)), "shape")
    perm = [dim_index(I, x, d) for d in dims]
    if len(set(perm)) != n:
        I.error("RuntimeError", "repeated dimension in permute", "shape")
    out = permute_dims(I, x, perm, "permute")
    out.vn = H("perm", x, tuple(perm)) if perm != list(range(n)) else x.vn
    return out


@op("moveaxis", "movedim")
def moveaxis(I, x, source, destination):
    if x.shape is None:
        return view(I, x, None)
    n = len(x.shape)
    s = source if isinstance(source, (tuple, list)) else (source,)
    d = destination if isinstance(destination, (tuple, list)) else (destination,)
    s = [dim_index(I, x, k) for k in s]
    d = [dim_index(I, x, k) for k in d]
    perm = [None] * n
    for a, b in zip(s, d):
        perm[b] = a
    rest = iter([i for i in range(n) if i not in s])
    perm = [p if p is not None else next(rest) for p in perm]
    out = permute_dims(I, x, perm, "moveaxis")
    out.vn = H("perm", x, tuple(perm)) if perm != list(range(n)) else x.vn
    return out


@op("unsqueeze", "unsqueeze_")
def unsqueeze(I, x, dim):
    if x.shape is None:
        return view(I, x, None)
    d = dim_index(I, x, dim, extra=1)
    idx = tuple([slice(None)] * d + [None])
    return O.getitem(I, x, idx + (Ellipsis,))


@op("squeeze", "squeeze_")
def squeeze(I, x, dim=None):
    if x.shape is None:
        return view(I, x, None)
    if dim is None:
        # removes every axis of size 1, including batch axes that happen to have size 1
        shape = []
        amb = False
        for d in x.shape:
            if d.is1():
                continue
            if I.facts.cmp("==", d.size, 1) is None:
                amb = True
            shape.append(d)
        if amb:
            I.event("squeeze_all")
            # a data axis may have size one: follow both possibilities
            keep = []
            for d in shape:
                if I.facts.cmp("==", d.size, 1) is None and I.decide_cond(Cond("==", d.size, 1)):
                    continue
                keep.append(d)
            shape = keep
        out = view(I, x, shape)
        if len(shape) != len(x.shape) and x.qe is not None:
            set_unk(out)
        return out
    ds = [dim_index(I, x, d) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
    shape = []
    ix = []
    for i, d in enumerate(x.shape):
        if i in ds:
            if d.is1() or I.facts.prove_eq(d.size, P(1)):
                ix.append(0)
                continue
            if I.facts.cmp("==", d.size, 1) is None and I.decide_cond(Cond("==", d.size, 1)):
                ix.append(0)
                continue
        ix.append(slice(None))
    out = O.getitem(I, x, tuple(ix))
    return out


@op("broadcast_to", "expand", "expand_as")
def broadcast_to(I, x, *size, **kw):
    if "size" in kw:
        size = (kw["size"],)
    if "shape" in kw:
        size = (kw["shape"],)
    if not isinstance(x, T):
        return unk_from(I, "broadcast_to", (x,))
    if len(size) == 1 and isinstance(size[0], T):
        tt = size[0]
        if tt.shape is None:
            return set_unk(view(I, x, None))
        target = list(tt.shape)
        sz = [d.size for d in target]
    else:
        sz = as_sizes(I, size)
        target = None
    if sz is None or x.shape is None:
        out = view(I, x, None)
        return set_unk(out) if not neutral(x) else out
    n, m = len(sz), len(x.shape)
    if n < m:
        I.error("RuntimeError", "cannot expand a %d-dimensional tensor to %d dimensions" % (m, n), "shape")
    shape = []
    for i, s in enumerate(sz):
        d = x.shape[i - (n - m)] if i >= n - m else None
        if as_int(s) == -1 and d is not None:
            shape.append(d)
            continue
        if d is None or d.is1():
            if d is not None and False:
                pass
            shape.append(Dim(a.rep(q=(), d=None, lag=None) for a in target[i].atoms) if target else size_dim(I, s))
        else:
            if not I.facts.prove_eq(d.size, s):
                w = I.facts.refute_eq(d.size, s)
                if w is not None:
                    I.error("RuntimeError", "cannot expand size %r to size %r (e.g. %s)" % (d.size, s, O.show_env(w)), "shape")
            shape.append(d)
    out = view(I, x, shape)
    out.load, out.eye = x.load, x.eye
    if n != m and x.qe is not None:
        out.qe = x.qe
    if x.comp and x.comp[0] != "pair":
        out.comp = x.comp
    if n != m and x.ri:
        out.ri = x.ri
    out.vn = H("bcast", x, [lower(s) for s in sz]) if any(not I.facts.prove_eq(a.size, b) for a, b in zip([Dim(())] * (n - m) + list(x.shape), sz)) else x.vn
    from . import linform
    linform.expand(I, x, out)
    return out


def size_dim(I, s):
    """axis of the given size; the role is recovered from the scenario's named sizes"""
    role = I.flags.get("size_roles", {}).get(P(s))
    return Dim.of(s, role)


@op("broadcast_tensors")
def broadcast_tensors(I, *ts):
    if len(ts) == 1 and isinstance(ts[0], (tuple, list)):
        ts = ts[0]
    if not all(isinstance(t, T) for t in ts) or any(t.shape is None for t in ts):
        return tuple(unk_from(I, "broadcast_tensors", (t,)) for t in ts)
    shape = bshape(I, ts, "broadcast_tensors")
    out = []
    for t in ts:
        n, m = len(shape), len(t.shape)
        sh = []
        for i, d in enumerate(shape):
            o = t.shape[i - (n - m)] if i >= n - m else None
            sh.append(d if o is None or o.is1() else o)
        r = view(I, t, sh)
        r.load, r.eye = t.load, t.eye
        r.vn = H("bcast", t, [lower(d.size) for d in shape]) if n != m or any(
            (o.is1() and not d.is1()) for o, d in zip(t.shape, shape)) else t.vn
        from . import linform
        linform.expand(I, t, r)
        out.append(r)
    return tuple(out)


@op("repeat", "tile")
def repeat(I, x, *reps):
    sz = as_sizes(I, reps)
    if sz is None or x.shape is None:
        return set_unk(mk(I, (x,), None, x.dtype)) if not neutral(x) else mk(I, (x,), None, x.dtype)
    n, m = len(sz), len(x.shape)
    shape = []
    lost = False
    for i, s in enumerate(sz):
        d = x.shape[i - (n - m)] if i >= n - m else Dim(())
        if as_int(s) == 1:
            shape.append(d)
        elif d.is1():
            shape.append(size_dim(I, s))
        else:
            shape.append(Dim.of(d.size * s))
            lost = lost or d.charged()
    out = mk(I, (x,), shape, x.dtype)
    out.lo, out.hi = x.lo, x.hi
    out.qst, out.qs, out.dl = x.qst, x.qs, x.dl
    if lost or x.comp or x.ri or x.qe:
        set_unk(out) if out.qst == "ok" else None
    return out


@op("repeat_interleave")
def repeat_interleave(I, x, repeats=None, dim=None, **k):
    n = lower(repeats) if isinstance(repeats, (int, Poly)) and not isinstance(repeats, bool) else None
    if isinstance(x, T) and x.shape is not None and n is not None and isinstance(dim, int):
        d = dim_index(I, x, dim)
        if x.shape[d].is1():
            # copies of the one entry of an axis, as expand makes them
            return broadcast_to(I, x, *[n if i == d else -1 for i in range(len(x.shape))])
        sh = list(x.shape)
        lost = sh[d].charged()
        sh[d] = Dim.of(sh[d].size * n)
        out = mk(I, (x,), sh, x.dtype)
        out.lo, out.hi, out.qst, out.qs = x.lo, x.hi, x.qst, x.qs
        return set_unk(out) if lost or x.comp or x.ri or x.qe else out
    out = mk(I, (x,), None, x.dtype)
    return set_unk(out)


# ------------------------------------------------------------------ joining
def joint_lag(I, elems, n):
    """lags of a stack of shifted copies: (lags, Atom.lag) or None"""
    l0 = elems[0].lags
    if len(l0) != 1 or len(elems) < 2:
        return None
    (a0, b0), = l0
    step = None
    for i, e in enumerate(elems[1:], 1):
        if len(e.lags) != 1:
            return None
        (a, b), = e.lags
        da = as_int(P(a) - P(a0))
        db = as_int(P(b) - P(b0))
        if da is None or da != db:
            return None
        if step is None:
            step = da
        if da != i * step:
            return None
    if step in (1, -1):
        return l0, (0, step)
    return None


@op("stack")
def stack(I, tensors, dim=0, out=None):
    if isinstance(tensors, T):
        return tensors
    if not isinstance(tensors, (list, tuple)) or not tensors:
        return unk_from(I, "stack", (tensors,))
    elems = [t.elem if isinstance(t, SymRep) else t for t in tensors]
    if not all(isinstance(e, T) for e in elems):
        return unk_from(I, "stack", elems)
    if any(e.shape is None for e in elems):
        return set_unk(mk(I, elems, None, elems[0].dtype))
    n = P(0)
    for t in tensors:
        n = n + (t.n if isinstance(t, SymRep) else 1)
    r = len(elems[0].shape)
    if any(len(e.shape) != r for e in elems):
        I.error("RuntimeError", "stack expects tensors of equal size", "shape")
    d = dim_index(I, elems[0], dim, extra=1)
    dims = []
    for i in range(r):
        for e in elems[1:]:
            size_must_equal(I, e.shape[i].size, elems[0].shape[i].size, "stack")
        dims.append(merge_dim(I, [e.shape[i] for e in elems], "stack"))
    dt = elems[0].dtype
    for e in elems[1:]:
        dt = promote(dt, e.dtype)
    for e in elems:
        O.join_device(I, elems)
    newdim = Dim.of(n) if as_int(n) != 1 else Dim(())
    shape = dims[:d] + [newdim] + dims[d:]
    out = mk(I, elems, shape, dt)
    out.lo = elems[0].lo
    out.hi = elems[0].hi
    for e in elems[1:]:
        out.lo, out.hi = lo_join(out.lo, e.lo), out.hi if out.hi == e.hi else bool(out.hi and e.hi)
    # lag structure
    if len(tensors) == 1 and isinstance(tensors[0], SymRep) and len(elems[0].lags) == 1:
        (a, b), = elems[0].lags
        syms = [s for s in P(a).symbols() if "@" in str(s) and str(s).startswith("k")]
        for s in syms:
            c1 = as_int(P(a).subst(s, 1) - P(a).subst(s, 0))
            c2 = as_int(P(b).subst(s, 1) - P(b).subst(s, 0))
            if c1 == c2 and c1 in (1, -1):
                out.lags = frozenset([(lower(P(a).subst(s, 0)), lower(P(b).subst(s, 0)))])
                out.shape = tuple(shape[:d]) + (Dim((Atom(n, None, (), None, (0, c1)),)),) + tuple(shape[d + 1:])
    elif all(e.lags for e in elems) and len(elems) > 1:
        jl = joint_lag(I, elems, n)
        if jl is not None:
            out.lags = jl[0]
            out.shape = tuple(out.shape[:d]) + (Dim((Atom(n, None, (), None, jl[1]),)),) + tuple(out.shape[d + 1:])
    join_charges(I, elems, d, out, new=True, sym=any(isinstance(t, SymRep) for t in tensors))
    # complex pair assembled from real and imaginary part
    if d == r and len(elems) == 2 and as_int(n) == 2 and any(e.comp for e in elems):
        set_neutral(out)
        out.comp = ("pair", elems[0], elems[1])
    from . import linform
    linform.stack(I, elems, d, out)
    return out


@op("cat", "concat", "concatenate", "hstack_", "vstack_")
def cat(I, tensors, dim=0, out=None):
    if not isinstance(tensors, (list, tuple)) or not tensors:
        return unk_from(I, "cat", (tensors,))
    items = list(tensors)
    elems = [t.elem if isinstance(t, SymRep) else t for t in items]
    if not all(isinstance(e, T) for e in elems):
        return unk_from(I, "cat", elems)
    if any(e.shape is None for e in elems):
        return set_unk(mk(I, elems, None, elems[0].dtype))
    r = len(elems[0].shape)
    if any(len(e.shape) != r for e in elems):
        I.error("RuntimeError", "cat expects tensors of equal rank (%s)" % ", ".join(str(len(e.shape)) for e in elems), "shape")
    d = dim_index(I, elems[0], dim)
    dims = []
    n = P(0)
    offs = []
    for t, e in zip(items, elems):
        offs.append(n)
        n = n + e.shape[d].size * (t.n if isinstance(t, SymRep) else 1)
    for i in range(r):
        if i == d:
            # a constant block takes the meaning of the data it extends
            src = [e for e in elems if e.data] or elems
            rr = [x for x in {a.role for e in src for a in e.shape[d].atoms} if x]
            role = None
            if len(set(rr)) == 1:
                role = rr[0]
            dims.append(Dim.of(n, role))
        else:
            for e in elems[1:]:
                size_must_equal(I, e.shape[i].size, elems[0].shape[i].size, "cat")
            dims.append(merge_dim(I, [e.shape[i] for e in elems], "cat"))
    dt = elems[0].dtype
    for e in elems[1:]:
        dt = promote(dt, e.dtype)
    out = mk(I, elems, dims, dt)
    out.lo = elems[0].lo
    out.hi = elems[0].hi
    for e in elems[1:]:
        out.lo, out.hi = lo_join(out.lo, e.lo), out.hi if out.hi == e.hi else bool(out.hi and e.hi)
    cat_lags(I, elems, offs, d, out)
    hav = [(e, o) for e, o in zip(elems, offs) if e.attrs and "toff" in e.attrs]
    if hav and d == r - 1 and len(hav) == 1 and not any(e.data for e in elems if e is not hav[0][0]):
        out.attrs = {"toff": lower(P(hav[0][0].attrs["toff"]) - hav[0][1])}
    elif hav and d != r - 1 and len(hav) == len(elems) and len({repr(lower(P(e.attrs["toff"]))) for e, _ in hav}) == 1:
        out.attrs = {"toff": hav[0][0].attrs["toff"]}
    if d == r - 1 and len(elems) == 2 and as_int(n) == 2 and any(e.comp for e in elems):
        set_neutral(out)
        a, b = (O.getitem(I, e, (Ellipsis, 0)) for e in elems)
        out.comp = ("pair", a, b)
        return out
    join_charges(I, elems, d, out, new=False, offs=offs, sym=any(isinstance(t, SymRep) for t in items))
    if len([1 for e in elems if e.shape[d].atoms or True]) == 1:
        out.vn = elems[0].vn
    from . import linform
    linform.cat(I, elems, offs, d, out)
    return out


def cat_lags(I, elems, offs, d, out):
    if any(a.role == "frame" for a in out.shape[d].atoms):
        lags = set()
        for e, o in zip(elems, offs):
            for l, h in e.lags:
                lags.add((lower(P(l) - o), lower(P(h) - o)))
        out.lags = frozenset(lags)
    elif any(a.lag for e in elems for a in e.shape[d].atoms):
        pass


def join_charges(I, elems, d, out, new, offs=None, sym=False):
    """charge of a concatenation / stack along axis d"""
    for e in elems:
        if is_bad(e):
            return set_status(out, e.qst)
    live = [e for e in elems if e.qst != "zero"]
    if not live:
        return set_status(out, "zero")
    if any(e.qst == "unk" or e.ri for e in live):
        if all(e.ri is True for e in live) and d != len(out.shape) - 1:
            pass
        else:
            return set_unk(out)
    if any(e.comp for e in live):
        # stacking separate components keeps them apart; any later use is not covariant in general
        return set_unk(out)
    live = [Q.settle(I, e) for e in live]
    if any(e.qst != "ok" for e in live):
        return set_unk(out)
    if new:
        return stack_charges(I, elems, live, d, out, sym)
    # concatenation: every piece must have the same charge on the other axes, and along
    # d the charge must be one function of the global index
    if all(neutral(e) for e in live):
        set_neutral(out)
        out.qst = "ok"
        return out
    pieces = []
    base = None
    gather_parts = []
    for e, o in zip(elems, offs):
        if e.qst == "zero":
            continue
        e = Q.settle(I, e)
        atoms = e.shape[d].atoms
        if len(atoms) > 1:
            return set_unk(out)
        loc = atoms[0].q if atoms else ()
        pieces.append((e, P(o), loc, bool(atoms)))
    # candidates for the charge as a function of the global index along d
    cands = []

    def addc(c):
        if not any(c == x for x in cands):
            cands.append(c)
    for e, o, loc, has in pieces:
        if has and not e.shape[d].atoms[0].d:
            addc(qshift(loc, -o))
    for e, o, loc, has in pieces:
        if not has:
            c = {}
            for (g, x), k in e.qs:
                if I.facts.prove_eq(P(x), o):
                    c[(g, P(0))] = k
            if c:
                addc(Q.qn(c))
    for e, o, loc, has in pieces:
        if has:
            addc(qshift(loc, -o))
    addc(())
    fixed = [p for p in pieces if not any(a.d for dd in p[0].shape for a in dd.atoms)]
    order = fixed + [p for p in pieces if p not in fixed]
    for cand in cands:
        norm = []
        for e, o, loc, has in order:
            z = e.clone()
            if has:
                a = e.shape[d].atoms[0]
                z.shape = e.shape[:d] + (Dim((a.rep(q=qadd(loc, qshift(cand, o), -1)),)),) + e.shape[d + 1:]
            else:
                z.qs = qadd(e.qs, qat(cand, o), -1)
            # all pieces get a common placeholder axis so that only charges are compared
            if not has:
                z.shape = e.shape[:d] + (Dim((Atom(P(1), None),)),) + e.shape[d + 1:]
            norm.append(z)
        ref = norm[0]
        good = True
        for z in norm:
            r = Q.unify(I, z, ref, len(out.shape))
            if r is None or r == "unk":
                good = False
                break
            if any(not Q.is_zero_q(I, v) for k, v in r[0].items() if k[0] == d):
                good = False
                break
        if not good:
            continue
        if any(not Q.is_zero_q(I, a.q) for a in ref.shape[d].atoms):
            continue
        if not fixed and any(any(a.d for dd in z.shape for a in dd.atoms) for z in norm) and not all(
                Q.show(z) == Q.show(ref) for z in norm):
            return set_unk(out)
        shape = []
        for i, dd in enumerate(out.shape):
            if i == d:
                shape.append(Dim(a.rep(q=cand, d=None) for a in dd.atoms))
            else:
                rq = ref.shape[i].atoms
                if len(rq) != len(dd.atoms):
                    if any(a.q for a in rq):
                        return set_unk(out)
                    shape.append(Dim(a.rep(q=(), d=None) for a in dd.atoms))
                else:
                    shape.append(Dim(a.rep(q=b.q, d=None) for a, b in zip(dd.atoms, rq)))
        out.shape = tuple(shape)
        out.qs, out.dl, out.qst, out.qe, out.comp = ref.qs, (), "ok", None, None
        return out
    return concat_general(I, elems, offs, d, out)


def concat_general(I, elems, offs, d, out):
    """pieces that rotate differently along the new axis: an element table when small"""
    if all(as_int(e.shape[d].size) is not None and as_int(e.shape[d].size) <= 4 for e in elems) and d == len(out.shape) - 1:
        tab = {}
        for e, o in zip(elems, offs):
            n = as_int(e.shape[d].size)
            e = Q.settle(I, e)
            if any(a.q for i, dd in enumerate(e.shape) if i != d for a in dd.atoms):
                return set_unk(out)
            for i in range(n):
                key = (as_int(P(o)) + i,)
                if e.qst == "zero":
                    tab[key] = None
                else:
                    q = e.qs
                    for a in e.shape[d].atoms:
                        q = qadd(q, qat(a.q, i))
                    tab[key] = q
        set_neutral(out)
        out.qst = "ok"
        out.qe = ((d - len(out.shape),), tab)
        z = Q.fit_elements(I, out)
        if z is not None:
            out.shape, out.qs, out.qe, out.qst = z.shape, z.qs, z.qe, z.qst
        return out
    return set_unk(out)


def stack_charges(I, elems, live, d, out, sym):
    n = len(elems)
    if all(neutral(e) for e in live):
        set_neutral(out)
        out.qst = "ok"
        return out
    if sym:
        # identical copies (loop index appears only in qs)
        e = live[0]
        if len(live) != 1:
            return set_unk(out)
        ks = {s for (g, o), c in e.qs for s in P(o).symbols() if "@" in str(s) and str(s).startswith("k")}
        if ks:
            k = list(ks)[0]
            qk = tuple(((g, P(o).subst(k, 0)), c) for (g, o), c in e.qs if k in P(o).symbols())
            q0 = tuple(((g, o), c) for (g, o), c in e.qs if k not in P(o).symbols())
            shape = list(out.shape)
            for i, dd in enumerate(e.shape):
                j = i if i < d else i + 1
                if len(shape[j].atoms) == len(dd.atoms):
                    shape[j] = Dim(a.rep(q=b.q) for a, b in zip(shape[j].atoms, dd.atoms))
            shape[d] = Dim(a.rep(q=qk) for a in shape[d].atoms)
            out.shape = tuple(shape)
            out.qs = q0
            out.qst = "ok"
            return out
        shape = list(out.shape)
        for i, dd in enumerate(e.shape):
            j = i if i < d else i + 1
            if len(shape[j].atoms) == len(dd.atoms):
                shape[j] = Dim(a.rep(q=b.q) for a, b in zip(shape[j].atoms, dd.atoms))
        out.shape, out.qs, out.qst = tuple(shape), e.qs, "ok"
        return out
    # same charge everywhere?
    first = live[0]
    ok = True
    for e in live[1:]:
        r = Q.unify(I, first, e, max(len(first.shape), len(e.shape)))
        if r is None:
            ok = False
            break
        if r == "unk":
            return set_unk(out)
    if ok:
        shape = list(out.shape)
        for i, dd in enumerate(first.shape):
            j = i if i < d else i + 1
            if len(shape[j].atoms) == len(dd.atoms):
                shape[j] = Dim(a.rep(q=b.q) for a, b in zip(shape[j].atoms, dd.atoms))
        out.shape, out.qs, out.qst = tuple(shape), first.qs, "ok"
        return out
    # element table over the new axis (and already tabulated ones)
    if n <= 4 and d >= len(out.shape) - 2:
        tab = {}
        axes = None
        for i, e in enumerate(elems):
            if e.qst == "zero":
                sub = {(): None}
                ax = ()
            elif e.qe is not None:
                ax, sub = e.qe
            else:
                if any(a.q for dd in e.shape for a in dd.atoms):
                    # expand one literal charged axis
                    cax = [(p, dd) for p, dd in enumerate(e.shape) if dd.charged()]
                    if len(cax) != 1 or as_int(cax[0][1].size) is None or as_int(cax[0][1].size) > 4 or len(cax[0][1].atoms) != 1:
                        return set_unk(out)
                    p, dd = cax[0]
                    ax = (p - len(e.shape),)
                    sub = {(k,): qadd(e.qs, qat(dd.atoms[0].q, k)) for k in range(as_int(dd.size))}
                else:
                    ax, sub = (), {(): e.qs}
            # axis positions in the stacked tensor
            ne = len(elems[i].shape)
            pos = tuple((a + ne) if (a + ne) < d else (a + ne + 1) for a in ax)
            for k, v in sub.items():
                key = dict(zip(pos, k))
                key[d] = i
                tab[tuple(sorted(key.items()))] = v
            aset = tuple(sorted(set(pos) | {d}))
            if axes is None or len(aset) > len(axes):
                axes = aset
        full = {}
        import itertools
        sizes = [as_int(out.shape[a].size) for a in axes]
        if any(s is None or s > 4 for s in sizes):
            return set_unk(out)
        for key in itertools.product(*[range(s) for s in sizes]):
            kd = dict(zip(axes, key))
            hit = None
            for tk, v in tab.items():
                if all(kd.get(a) == b for a, b in tk):
                    hit = (v,)
                    break
            if hit is None:
                return set_unk(out)
            full[key] = hit[0]
        set_neutral(out)
        out.qst = "ok"
        out.qe = (tuple(a - len(out.shape) for a in axes), full)
        z = Q.fit_elements(I, out)
        if z is not None:
            out.shape, out.qs, out.qe, out.qst = z.shape, z.qs, z.qe, z.qst
        return out
    return set_unk(out)


@op("split", "chunk", "tensor_split")
def split(I, x, size, dim=0):
    if x.shape is None:
        return unk_from(I, "split", (x,))
    d = dim_index(I, x, dim)
    n = x.shape[d].size
    if isinstance(size, (tuple, list)):
        outs = []
        o = P(0)
        for s in size:
            idx = tuple([slice(None)] * d + [slice(lower(o), lower(o + s))])
            outs.append(O.getitem(I, x, idx))
            o = o + s
        return tuple(outs)
    if as_int(n) is not None and as_int(size) is not None:
        outs = []
        for k in range(0, as_int(n), as_int(size)):
            idx = tuple([slice(None)] * d + [slice(k, min(k + as_int(size), as_int(n)))])
            outs.append(O.getitem(I, x, idx))
        return tuple(outs)
    return unk_from(I, "split", (x,))


@op("chunk")
def chunk(I, x, chunks, dim=0):
    if x.shape is None or as_int(chunks) is None:
        return unk_from(I, "chunk", (x,))
    d = dim_index(I, x, dim)
    n = x.shape[d].size
    q = exact_div(n, P(chunks))
    if q is None:
        return tuple(unk_from(I, "chunk%d" % i, (x,)) for i in range(as_int(chunks)))
    return tuple(O.getitem(I, x, tuple([slice(None)] * d + [slice(lower(q * i), lower(q * (i + 1)))])) for i in range(as_int(chunks)))


@op("unbind")
def unbind(I, x, dim=0):
    d = dim_index(I, x, dim)
    n = as_int(x.shape[d].size)
    if n is None:
        return [SymRep(O.getitem(I, x, tuple([slice(None)] * d + [I.facts.new_sym("unbind", 0)])), x.shape[d].size)]
    return tuple(O.getitem(I, x, tuple([slice(None)] * d + [i])) for i in range(n))


@op("narrow")
def narrow(I, x, dim, start, length):
    d = dim_index(I, x, dim)
    return O.getitem(I, x, tuple([slice(None)] * d + [slice(start, lower(P(start) + P(length)))]))


@op("select")
def select(I, x, dim, index):
    d = dim_index(I, x, dim)
    return O.getitem(I, x, tuple([slice(None)] * d + [index]))


@op("index_select")
def index_select(I, x, dim, index):
    d = dim_index(I, x, dim)
    return O.getitem(I, x, tuple([slice(None)] * d + [index]))


@op("take_along_dim")
def take_along_dim(I, x, indices, dim=None):
    return gather(I, x, dim, indices)


@op("gather")
def gather(I, x, dim, index, **k):
    if not tens(I, x, index):
        return unk_from(I, "gather", (x, index))
    if x.shape is None or index.shape is None:
        return set_unk(mk(I, (x, index), None, x.dtype))
    if len(x.shape) != len(index.shape):
        I.error("RuntimeError", "gather: index must have as many dimensions as input", "shape")
    d = dim_index(I, x, dim)
    shape = []
    for i, (a, b) in enumerate(zip(x.shape, index.shape)):
        if i == d:
            role = a.atoms[0].role if len(a.atoms) == 1 else None
            shape.append(Dim.of(b.size, role) if b.atoms else Dim(()))
        else:
            if not I.facts.prove_ge0(a.size - b.size):
                w = I.facts.refute_ge0(a.size - b.size)
                if w is not None:
                    I.error("RuntimeError", "gather: index larger than input (e.g. %s)" % O.show_env(w), "shape")
            shape.append(merge_dim(I, [a, b], "gather") if I.facts.prove_eq(a.size, b.size) else Dim.of(b.size))
    out = mk(I, (x, index), shape, x.dtype)
    out.lo, out.hi = x.lo, x.hi
    if x.data:
        note_mix(I, out, x.shape[d].atoms, "gather")
    if x.qst == "zero":
        set_status(out, "zero")
    elif is_bad(x) or is_bad(index):
        set_status(out, x.qst if is_bad(x) else index.qst)
    elif x.qst == "unk" or x.comp or x.ri:
        set_unk(out)
    elif x.shape[d].charged():
        a = x.shape[d].atoms
        key = index.attrs.get("idxkey") if index.attrs else None
        if len(a) == 1:
            gq = gather_q(I, a[0].q, H(index) if key is None else key)
            cp = x.clone()
            sh = [Dim(t.rep(q=s.q) for t, s in zip(o.atoms, i.atoms)) if len(o.atoms) == len(i.atoms) else o for o, i in zip(out.shape, x.shape)]
            sh[d] = Dim(t.rep(q=gq) for t in out.shape[d].atoms)
            out.shape, out.qs, out.qst = tuple(sh), x.qs, "ok"
            if any(not q.is1() and i != d for i, q in enumerate(index.shape) if not (len(q.atoms) == 1 and q.atoms[0].role == "bcast")):
                # index varies along other axes: the selected element differs there
                pass
        else:
            set_unk(out)
    else:
        tmp = x.clone()
        sh = [Dim(t.rep(q=s.q) for t, s in zip(o.atoms, i.atoms)) if len(o.atoms) == len(i.atoms) and k_ != d else o
              for k_, (o, i) in enumerate(zip(out.shape, x.shape))]
        out.shape, out.qs, out.qst = tuple(sh), x.qs, "ok"
    out.attrs = {"gather": (x, d - len(x.shape), index)}
    return out


@op("flip", "fliplr")
def flip(I, x, *dims, **kw):
    dims = kw.get("dims", dims)
    if isinstance(dims, (tuple, list)) and len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    if isinstance(dims, int):
        dims = (dims,)
    if x.shape is None:
        out = mk(I, (x,), None, x.dtype)
        return set_unk(out) if not neutral(x) else out
    ds = [dim_index(I, x, d) for d in dims]
    x0 = x
    if x.qe is not None:
        nd = len(x.shape)
        tab = {}
        ax = [d % nd for d in x.qe[0]]
        for k, v in x.qe[1].items():
            kk = tuple((as_int(x.shape[a].size) - 1 - i) if a in ds else i for a, i in zip(ax, k))
            tab[kk] = v
        y = x.clone()
        y.qe = (x.qe[0], tab)
        x = y
    shape = []
    for i, d in enumerate(x.shape):
        if i in ds and d.atoms:
            na = []
            for a in d.atoms:
                lag = a.lag
                if lag is not None:
                    lag = (lower(P(lag[0]) + (a.size - 1) * lag[1]), -lag[1])
                na.append(a.rep(q=gather_q(I, a.q, "flip%r" % (a.size,)), d=None, lag=lag))
            if batch_roles(d.atoms) and x.data:
                I.event("mix", "flip of a batch axis")
            shape.append(Dim(na))
        else:
            shape.append(d)
    out = mk(I, (x,), shape, x.dtype)
    out.lo, out.hi = x.lo, x.hi
    if any(batch_roles(x.shape[i].atoms) for i in ds) and x.data:
        out.mix = out.mix | frozenset([(I.site(), "flip of a batch axis")])
    if any(a.role == "frame" for i in ds for a in x.shape[i].atoms) and x.lags:
        out.taint = out.taint | frozenset([("wrap", I.site())])
    out.qst, out.qs, out.dl, out.qe, out.comp, out.ri = x.qst, x.qs, (), x.qe, x.comp, x.ri
    if x.comp:
        set_unk(out)
    if any(a.d for d in x.shape for a in d.atoms):
        out.shape = tuple(Dim(a.rep(d=None) for a in d.atoms) for d in out.shape)
        if x.eye:
            set_unk(out)
    return out


@op("roll")
def roll(I, x, shifts=None, dims=None, **k):
    if x.shape is None or dims is None:
        out = mk(I, (x,), x.shape, x.dtype)
        return set_unk(out) if not neutral(x) else out
    ds = [dim_index(I, x, d) for d in (dims if isinstance(dims, (tuple, list)) else (dims,))]
    out = mk(I, (x,), x.shape, x.dtype)
    out.lo, out.hi = x.lo, x.hi
    out.qst, out.qs = x.qst, x.qs
    if any(x.shape[d].charged() for d in ds) or x.comp or x.ri or x.qe:
        set_unk(out) if x.qst == "ok" else None
    if any(a.role == "frame" for d in ds for a in x.shape[d].atoms) and x.lags:
        out.taint = out.taint | frozenset([("wrap", I.site())])
    if any(batch_roles(x.shape[d].atoms) for d in ds) and x.data:
        out.mix = out.mix | frozenset([(I.site(), "roll of a batch axis")])
    return out


# ------------------------------------------------------------------ reductions
def red(kind):
    def f(I, x, dim=None, keepdim=False, dtype=None, **kw):
        if not isinstance(x, T):
            return unk_from(I, kind, (x,))
        if isinstance(keepdim, DT):
            dtype, keepdim = keepdim, False
        if "unbiased" in kw:
            pass
        r = reduce_(I, x, dim, keepdim, kind, dtype)
        return r
    return f


for _k in ("sum", "mean", "prod", "var", "std", "logsumexp", "amax", "amin"):
    OPS[_k] = red(_k)
OPS["nansum"] = red("sum")
OPS["nanmean"] = red("mean")


def anyall(kind):
    def f(I, x, dim=None, keepdim=False):
        if not isinstance(x, T):
            return unk_from(I, kind, (x,))
        r = reduce_(I, x, dim, keepdim, kind)
        r.dtype = BOOL
        return r
    return f


OPS["any"] = anyall("any")
OPS["all"] = anyall("all")


def minmax(kind):
    def f(I, x, dim=None, keepdim=False, **kw):
        if isinstance(dim, T):
            return (maximum if kind == "max" else minimum)(I, x, dim)
        if not isinstance(x, T):
            return unk_from(I, kind, (x,))
        if x.dtype is not None and x.dtype.kind == "c":
            I.error("RuntimeError", "%s is not supported for complex types" % kind, "dtype")
        r = reduce_(I, x, dim, keepdim, kind)
        if dim is None:
            return r
        idx = r.clone()
        idx.dtype = I64
        idx.grad, idx.sev = False, {}
        idx.lo = "ge0"
        r.vn = H(kind, x, dim, keepdim)
        idx.vn = H("arg" + kind, x, dim, keepdim)
        idx.attrs = {"argsort_of": (x, dim, kind)}
        return NT.make((r, idx), ("values", "indices"), kind)
    return f


OPS["max"] = minmax("max")
OPS["min"] = minmax("min")
OPS["median"] = minmax("median")


@op("argmax", "argmin")
def argmax(I, x, dim=None, keepdim=False):
    r = reduce_(I, x, dim, keepdim, "max")
    r.dtype = I64
    r.grad, r.sev = False, {}
    r.attrs = {"argsort_of": (x, dim, "arg")}
    return r


@op("argsort")
def argsort(I, x, dim=-1, descending=False, stable=False):
    if not isinstance(x, T):
        return unk_from(I, "argsort", (x,))
    out = mk(I, (x,), x.shape, I64)
    out.lo = "ge0"
    if x.shape is not None:
        d = dim_index(I, x, dim)
        if x.data:
            note_mix(I, out, x.shape[d].atoms, "argsort")
        if x.dtype is not None and x.dtype.kind == "c":
            I.error("RuntimeError", "sorting complex values", "dtype")
        Q.nonlinear(I, x, out, "argsort")
        out.attrs = {"argsort": (x, d - len(x.shape), bool(descending) if isinstance(descending, bool) else None)}
    return out


@op("sort")
def sort(I, x, dim=-1, descending=False, stable=False):
    idx = argsort(I, x, dim, descending)
    val = idx.clone()
    val.dtype = x.dtype
    val.grad, val.sev = x.grad, dict(x.sev)
    val.lo, val.hi = x.lo, x.hi
    val.vn = H("sort", x, dim, descending)
    idx.vn = H("argsort", [x, dim, descending], {})
    val.attrs = {"sorted": idx.attrs["argsort"]} if idx.attrs else None
    return NT.make((val, idx), ("values", "indices"), "sort")


@op("topk")
def topk(I, x, k, dim=-1, largest=True, sorted=True):
    r = sort(I, x, dim, largest)
    d = dim_index(I, x, dim)
    if not I.facts.prove_ge0(x.shape[d].size - P(k)):
        w = I.facts.refute_ge0(x.shape[d].size - P(k))
        if w is not None:
            I.error("RuntimeError", "topk: k out of range", "shape")
    sl = tuple([slice(None)] * d + [slice(0, k)])
    return NT.make(tuple(getsl(I, t, sl) for t in r), ("values", "indices"), "topk")


def getsl(I, t, sl):
    return O.getitem(I, t, sl)


@op("norm", "linalg_norm", "vector_norm", "matrix_norm")
def norm(I, x, p=None, dim=None, keepdim=False, dtype=None, **kw):
    if not isinstance(x, T):
        return unk_from(I, "norm", (x,))
    if "ord" in kw:
        p = kw["ord"]
    if isinstance(p, (tuple,)) and dim is None:
        pass
    r = reduce_(I, x, dim, keepdim, "norm")
    return r


@op("normalize")
def normalize(I, x, p=2.0, dim=1, eps=1e-12, **k):
    n = norm(I, x, dim=dim, keepdim=True)
    n.vn = H("norm", x, dim)
    d = clamp(I, n, min=eps)
    d.vn = H("clamp", n, eps)
    r = O.ew2(I, "div", x, d)
    r.hi = True
    return r


@op("cumsum", "cumprod", "logcumsumexp")
def cumsum(I, x, dim, **k):
    out = mk(I, (x,), x.shape, x.dtype)
    out.lo = x.lo
    if x.shape is not None:
        d = dim_index(I, x, dim)
        if x.data:
            note_mix(I, out, x.shape[d].atoms, "cumsum")
        ch_copy(x, out)
        if x.shape[d].charged() or x.comp or x.ri:
            set_unk(out)
    return out


@op("diff")
def diff(I, x, n=1, dim=-1, **k):
    d = dim_index(I, x, dim)
    a = O.getitem(I, x, tuple([slice(None)] * d + [slice(1, None)]))
    b = O.getitem(I, x, tuple([slice(None)] * d + [slice(None, -1)]))
    return O.ew2(I, "sub", a, b)


@op("count_nonzero", "numel_t")
def cnz(I, x, dim=None):
    r = reduce_(I, x, dim, False, "sum")
    r.dtype = I64
    return r


# ------------------------------------------------------------------ products
@op("matmul", "__matmul__")
def matmul(I, a, b):
    return O.matmul(I, a, b)


@op("bmm")
def bmm(I, a, b):
    for t in (a, b):
        if isinstance(t, T) and t.shape is not None and len(t.shape) != 3:
            I.error("RuntimeError", "bmm expects 3-dimensional tensors, got %d dimensions" % len(t.shape), "shape")
    return O.matmul(I, a, b)


@op("mm")
def mm(I, a, b):
    for t in (a, b):
        if isinstance(t, T) and t.shape is not None and len(t.shape) != 2:
            I.error("RuntimeError", "mm expects 2-dimensional tensors", "shape")
    return O.matmul(I, a, b)


@op("mv", "dot", "inner", "vdot")
def mv(I, a, b):
    return O.matmul(I, a, b)


@op("einsum")
def einsum(I, *a):
    return O.einsum(I, *a)


@op("outer", "ger")
def outer(I, a, b):
    return O.ew2(I, "mul", O.getitem(I, a, (slice(None), None)), O.getitem(I, b, (None, slice(None))))


def ew(name):
    def f(I, a, b, alpha=None, rounding_mode=None, out=None):
        if alpha is not None:
            b = O.ew2(I, "mul", b, alpha) if isinstance(b, T) else b
        if not isinstance(a, T) and not isinstance(b, T):
            return unk_from(I, name, (a, b))
        return O.binop(I, name, a, b)
    return f


for _n, _f in (("add", "add"), ("sub", "sub"), ("subtract", "sub"), ("mul", "mul"), ("multiply", "mul"), ("div", "div"),
               ("divide", "div"), ("true_divide", "div"), ("pow", "pow"), ("float_power", "pow"), ("floor_divide", "floordiv"),
               ("remainder", "mod"), ("fmod", "mod")):
    OPS[_n] = ew(_f)


@op("logical_and", "bitwise_and", "logical_or", "bitwise_or", "logical_xor")
def logical(I, a, b):
    r = O.ew2(I, "and", a, b)
    r.dtype = BOOL
    return r


@op("addcmul")
def addcmul(I, x, a, b, value=1):
    t = O.binop(I, "mul", a, b)
    if value != 1:
        t = O.binop(I, "mul", t, value)
    return O.binop(I, "add", x, t)


@op("addcdiv")
def addcdiv(I, x, a, b, value=1):
    t = O.binop(I, "div", a, b)
    if value != 1:
        t = O.binop(I, "mul", t, value)
    return O.binop(I, "add", x, t)


@op("lerp")
def lerp(I, a, b, w):
    return O.binop(I, "add", a, O.binop(I, "mul", w, O.binop(I, "sub", b, a)))


@op("hypot")
def hypot(I, a, b):
    s = O.binop(I, "add", call_op(I, "square", [a], {}), call_op(I, "square", [b], {}))
    return sqrt(I, s)


for _n, _o in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!="), ("less", "<"), ("greater", ">"),
               ("isclose", "==")):
    OPS[_n] = (lambda o: lambda I, a, b, **k: O.compare(I, o, a, b))(_o)


@op("equal", "allclose")
def equal(I, a, b, **k):
    u = BCond(H("equal", a, b), (a.mix | b.mix) if tens(I, a, b) else frozenset(), True)
    return u


# ------------------------------------------------------------------ linalg
@op("solve", "linalg_solve")
def solve(I, A, B, left=True, **k):
    return O.solve(I, A, B)


@op("lstsq", "linalg_lstsq")
def lstsq(I, A, B, **k):
    if tens(I, A, B) and A.shape is not None and B.shape is not None:
        out = mk(I, (A, B), list(B.shape[:-2]) + [A.shape[-1], B.shape[-1]], A.dtype)
        set_unk(out)
    else:
        out = unk_from(I, "lstsq", (A, B))
    if isinstance(out, T):
        out.vn = H("lstsq", A, B)
    return NT.make((out, Unk("res"), Unk("rank"), Unk("sv")), ("solution", "residuals", "rank", "singular_values"), "lstsq")


@op("solve_triangular", "cholesky_solve", "lu_solve")
def solve_tri(I, A, B, **k):
    return unk_from(I, "solve_triangular", (A, B))


@op("inv", "inverse", "linalg_inv")
def inv(I, A, **k):
    return O.inv(I, A)


@op("pinv", "pinverse")
def pinv(I, A, *a, **k):
    return unk_from(I, "pinv", (A,))


@op("eigh", "linalg_eigh")
def eigh(I, A, UPLO="L", **k):
    r = O.eigh_(I, A)
    setvn(r, "eigh", [A], {})
    return r


@op("eigvalsh")
def eigvalsh(I, A, **k):
    r = O.eigh_(I, A)
    setvn(r, "eigh", [A], {})
    return r[0]


@op("cholesky", "linalg_cholesky")
def cholesky(I, A, **k):
    if not isinstance(A, T) or A.shape is None:
        return unk_from(I, "cholesky", (A,))
    O.split_square(I, A, "cholesky")
    out = mk(I, (A,), A.shape, A.dtype)
    O.solve_guard(I, A, out, "cholesky")
    return set_unk(out)


@op("slogdet", "linalg_slogdet")
def slogdet(I, A):
    if not isinstance(A, T) or A.shape is None:
        u = unk_from(I, "slogdet", (A,))
        return NT.make((u, u), ("sign", "logabsdet"), "slogdet")
    O.split_square(I, A, "slogdet")
    s = mk(I, (A,), A.shape[:-2], A.dtype)
    l = mk(I, (A,), A.shape[:-2], A.dtype.real() if A.dtype else None)
    for o in (s, l):
        set_unk(o)
    return NT.make((s, l), ("sign", "logabsdet"), "slogdet")


@op("det", "linalg_det")
def det(I, A):
    O.split_square(I, A, "det")
    s = mk(I, (A,), A.shape[:-2], A.dtype)
    return set_unk(s)


@op("trace")
def trace(I, A):
    return reduce_(I, diagonal(I, A), -1, False, "sum")


@op("diagonal")
def diagonal(I, x, offset=0, dim1=0, dim2=1):
    if x.shape is None:
        return set_unk(view(I, x, None))
    a, b = dim_index(I, x, dim1), dim_index(I, x, dim2)
    x = Q.settle(I, x)
    rest = [d for i, d in enumerate(x.shape) if i not in (a, b)]
    A, B = x.shape[a], x.shape[b]
    if as_int(offset) != 0:
        out = view(I, x, rest + [Dim((Atom(I.fresh("diag"), None),))])
        return set_unk(out) if not neutral(x) else out
    d = A
    if not I.facts.prove_eq(A.size, B.size):
        d = Dim.of(I.facts.minimum(A.size, B.size))
    if len(A.atoms) == len(B.atoms) == 1 and d is A:
        at = A.atoms[0].rep(q=qadd(A.atoms[0].q, B.atoms[0].q), d=None)
        out = view(I, x, rest + [Dim((at,))])
    else:
        out = view(I, x, rest + [d.plain()])
        if A.charged() or B.charged():
            set_unk(out)
    if x.comp or x.ri:
        set_unk(out)
    out.dl = ()
    if x.eye:
        out.lo = "gtc"
        out.qst = "ok"
    return out


@op("diag_embed")
def diag_embed(I, x, offset=0, dim1=-2, dim2=-1):
    if x.shape is None:
        return set_unk(mk(I, (x,), None, x.dtype))
    n = x.shape[-1]
    did = ("d", H("diag_embed", x)[:8])
    if len(n.atoms) == 1:
        a = n.atoms[0]
        out = mk(I, (x,), list(x.shape[:-1]) + [Dim((a.rep(d=(did, P(0))),)), Dim((a.rep(q=(), d=(did, P(0))),))], x.dtype)
        out.qst, out.qs = x.qst, x.qs
    else:
        out = mk(I, (x,), list(x.shape[:-1]) + [n, n], x.dtype)
        if x.qst == "ok" and not neutral(x):
            set_unk(out)
    if x.lo in ("gt0", "gtc"):
        out.eye = "pos"
    out.lo = "any" if x.lo not in ("ge0", "gt0", "gtc") else "ge0"
    if x.qst == "zero":
        set_status(out, "zero")
    return out


@op("diag", "diagflat")
def diag(I, x, diagonal_=0, **k):
    if x.shape is None:
        return set_unk(mk(I, (x,), None, x.dtype))
    if len(x.shape) == 1:
        return diag_embed(I, x)
    if len(x.shape) == 2:
        return diagonal(I, x)
    I.error("RuntimeError", "diag needs a 1- or 2-dimensional tensor", "shape")


@op("triu", "tril", "triu_", "tril_")
def triu(I, x, diagonal=0):
    out = mk(I, (x,), x.shape, x.dtype)
    ch_copy(x, out)
    out.lo = "ge0" if x.lo in ("ge0", "gt0", "gtc") else ("unk" if x.lo == "unk" else "any")
    return out


# ------------------------------------------------------------------ factories
def fac_dtype(I, dtype):
    return dtype if isinstance(dtype, DT) else (I.default_dtype if dtype is None else None)


def dev_of(I, device):
    if device is None:
        return "cpu"
    if isinstance(device, str):
        return "cpu" if device == "cpu" else device
    if isinstance(device, ExtObj) and device.args and isinstance(device.args[0], str):
        return device.args[0]
    if isinstance(device, (AStr, Unk)):
        return None
    if isinstance(device, tuple) and device[:1] == ("dev",):
        return device[-1]
    return None


def const(I, sz, dt, dev, lo, zero=False, val=None):
    if sz is None:
        t = T(None, dt, dev)
    else:
        t = T([size_dim(I, s) for s in sz], dt, dev)
        for s in sz:
            s = P(s)
            if not I.facts.prove_ge0(s):
                w = I.facts.refute_ge0(s)
                if w is not None:
                    I.error("RuntimeError", "negative dimension %r (e.g. %s)" % (lower(s), O.show_env(w)), "shape")
    t.lo, t.hi = lo, True
    t.qst = "zero" if zero else "ok"
    t.val = val
    return t


def sizes_kw(I, args, kw):
    if "size" in kw:
        args = (kw.pop("size"),)
    return as_sizes(I, args)


@op("zeros", "zeros_")
def zeros(I, *size, dtype=None, device=None, requires_grad=False, out=None, **kw):
    return const(I, sizes_kw(I, size, kw), fac_dtype(I, dtype), dev_of(I, device), "ge0", True, 0)


@op("ones")
def ones(I, *size, dtype=None, device=None, requires_grad=False, out=None, **kw):
    return const(I, sizes_kw(I, size, kw), fac_dtype(I, dtype), dev_of(I, device), "gtc", False, 1)


@op("empty", "empty_strided")
def empty(I, *size, dtype=None, device=None, **kw):
    t = const(I, sizes_kw(I, size, kw), fac_dtype(I, dtype), dev_of(I, device), "unk")
    t.qst = "unk"
    return t


@op("full")
def full(I, size, fill_value, dtype=None, device=None, **kw):
    if dtype is None:
        dt = I.default_dtype if isinstance(fill_value, (float, Flt)) else (I64 if isinstance(fill_value, (int, Poly)) and not isinstance(fill_value, bool) else None)
    else:
        dt = dtype
    return const(I, as_sizes(I, (size,)), dt, dev_of(I, device), O.scal_lo(I, fill_value), O.scal_zero(fill_value), fill_value if isinstance(fill_value, (int, float)) else None)


def like(f):
    def g(I, x, *a, dtype=None, device=None, **kw):
        if not isinstance(x, T):
            return unk_from(I, "like", (x,))
        kw.pop("memory_format", None)
        kw.pop("requires_grad", None)
        t = f(I, tuple(d.size for d in x.shape) if x.shape is not None else Unk("shape"), *a,
              dtype=dtype or x.dtype, device=("dev", "=", x.device) if device is None else device, **kw)
        if device is None:
            t.device = x.device
        if x.shape is not None:
            t.shape = tuple(d.plain() for d in x.shape)
            t.shape = tuple(Dim(a.rep(lag=None) for a in d.atoms) for d in t.shape)
        return t
    return g


def newf(f):
    def g(I, x, *a, dtype=None, device=None, **kw):
        if not isinstance(x, T):
            return unk_from(I, "new", (x,))
        kw.pop("requires_grad", None)
        t = f(I, *a, dtype=dtype or x.dtype, device=device, **kw)
        if device is None:
            t.device = x.device
        return t
    return g


OPS["zeros_like"], OPS["ones_like"], OPS["empty_like"], OPS["full_like"] = like(zeros), like(ones), like(empty), like(full)
OPS["new_zeros"], OPS["new_ones"], OPS["new_empty"], OPS["new_full"] = newf(zeros), newf(ones), newf(empty), newf(full)


@op("eye")
def eye(I, n, m=None, dtype=None, device=None, **kw):
    if m is None:
        m = n
    dt, dev = fac_dtype(I, dtype), dev_of(I, device)
    if isinstance(n, (Unk, Flt)) or isinstance(m, (Unk, Flt)):
        t = T(None, dt, dev)
        return set_unk(t)
    if n is None or isinstance(n, (str, float)) or isinstance(m, (str, float)):
        I.error("TypeError", "eye(): argument must be an integer, not %s" % type(n).__name__, "op")
    t = const(I, [P(n), P(m)], dt, dev, "ge0")
    k = I.flags.get("eyes", 0)
    I.flags["eyes"] = k + 1
    did = ("eye", k)
    t.shape = tuple(Dim(a.rep(d=(did, P(0))) for a in d.atoms) for d in t.shape)
    if any(not d.atoms for d in t.shape):
        t.dl = tuple((did, P(0)) for d in t.shape if not d.atoms)[:1]
    t.eye = "eye"
    t.vn = H("eye", n, m, dt, str(dev))
    from . import linform
    linform.eye(I, t)
    return t


@op("arange", "linspace", "logspace")
def arange(I, *a, dtype=None, device=None, **kw):
    a = [kw[k] for k in ("start", "end") if k in kw] or list(a)
    n = None
    if len(a) == 1 and isinstance(a[0], (int, Poly)):
        n = P(a[0])
    elif len(a) >= 2 and all(isinstance(v, (int, Poly)) for v in a[:2]) and (len(a) == 2 or as_int(a[2]) == 1):
        n = P(a[1]) - P(a[0])
    dt = dtype or (I64 if all(isinstance(v, (int, Poly)) for v in a) else I.default_dtype)
    t = T([n] if n is not None else [I.fresh("arange")], dt, dev_of(I, device))
    t.lo, t.hi = "ge0", True
    return t


@op("tensor", "as_tensor", "from_numpy", "asarray")
def tensor(I, v, dtype=None, device=None, **kw):
    if isinstance(v, T):
        out = view(I, v, v.shape)
        out.load, out.eye, out.lin, out.val, out.vn = v.load, v.eye, v.lin, v.val, v.vn
        out.kind = "tensor"
        if dtype is not None:
            out.dtype = dtype
        if device is not None:
            out.device = dev_of(I, device)
        return out
    sh = shape_of_literal(v)
    dt = dtype
    if dt is None:
        k = lit_kind(v)
        dt = {"f": I.default_dtype, "i": I64, "b": BOOL}.get(k)
    t = T(sh, dt, dev_of(I, device))
    if isinstance(v, (int, float, Poly, Flt)) and not isinstance(v, bool):
        t.lo = O.scal_lo(I, v)
        t.hi = True
        t.val = v if isinstance(v, (int, float)) else None
        if O.scal_zero(v):
            t.qst = "zero"
        if isinstance(v, Flt):
            t.data, t.mix, t.nan = v.data, v.mix, v.nan
            t.sev = dict(v.sev)
    else:
        t.lo = "unk"
        if isinstance(v, Unk):
            t.qst = "unk"
            t.data = v.data
            t.mix = v.mix
            t.sev = dict(v.sev)
    return t


def shape_of_literal(v):
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, SymRep) for x in v):
            return None
        if not v:
            return (0,)
        s = shape_of_literal(v[0])
        return None if s is None else (len(v),) + tuple(s)
    if isinstance(v, (int, float, Poly, Flt, bool, complex)):
        return ()
    return None


def lit_kind(v):
    if isinstance(v, (list, tuple)):
        ks = {lit_kind(x) for x in v}
        return "f" if "f" in ks else ("i" if "i" in ks else None)
    if isinstance(v, bool):
        return "b"
    if isinstance(v, (int, Poly)):
        return "i"
    if isinstance(v, (float, Flt)):
        return "f"
    return None


@op("rand", "randn", "randint", "randperm")
def rand(I, *size, dtype=None, device=None, generator=None, **kw):
    I.event("rng", "draw")
    kw.pop("requires_grad", None)
    sz = sizes_kw(I, size, kw)
    t = const(I, sz, fac_dtype(I, dtype), dev_of(I, device), "any")
    I.rand += 1
    t.vn = H("rand", I.rand_key())
    t.qst = "ok"
    return t


OPS["rand_like"] = OPS["randn_like"] = like(lambda I, sz, **k: rand(I, sz, **k))


@op("uniform_", "normal_", "random_", "exponential_", "bernoulli_")
def uniform_(I, x, *a, **k):
    I.event("rng", "draw")
    r = x.clone()
    I.rand += 1
    r.vn = H("rand", I.rand_key(), [d.size for d in x.shape] if x.shape is not None else None)
    r.lo, r.hi = "ge0", True
    if a and isinstance(a[0], (int, float)) and a[0] > 0:
        r.lo = "gtc"
    r.qst = "ok"
    r.val = None
    set_neutral(r)
    O.inplace_update(I, x, r, "in-place initialisation")
    x.vn = r.vn
    return x


@op("uniform", "normal")
def normal(I, *a, **k):
    I.event("rng", "draw")
    return unk_from(I, "normal", ())


# ------------------------------------------------------------------ dtype / device
def convert(I, x, dt=None, dev=None, copy=False):
    same = (dt is None or dt is x.dtype) and (dev is None or dev == x.device)
    if same and not copy:
        return x
    out = view(I, x, x.shape)
    out.load, out.eye, out.lin, out.val, out.attrs = x.load, x.eye, x.lin, x.val, x.attrs
    out.stor, out.view_of = frozenset(), None
    out.vn = x.vn if dt is None or dt is x.dtype else H("cast", x, dt)
    if dev is not None:
        out.device = dev
    if dt is not None:
        out.dtype = dt
        if x.dtype is not None and x.data:
            if x.dtype.kind == "c" and dt.kind != "c":
                I.event("lossy", "complex value converted to %r" % dt)
                if not neutral(x) and x.qst == "ok":
                    set_bad(I, out, "imaginary part dropped")
            elif x.dtype.kind in "fc" and dt.kind in "fc" and dt.bits < x.dtype.bits:
                I.event("lossy", "%r value converted to %r" % (x.dtype, dt))
            elif x.dtype.kind in "fc" and dt.kind in "ib":
                I.event("lossy", "%r value converted to %r" % (x.dtype, dt))
                if out.grad:
                    out.grad = False
                    out.sev[I.site()] = "full"
        if dt.kind == "c" and out.lo in ("ge0", "gt0", "gtc"):
            out.lo = "nz" if out.lo != "ge0" else "any"
        if x.dtype is not None and x.dtype.kind == "c" and dt.kind != "c" and x.lo == "nz":
            out.lo = "any"
    return out


@op("to", "to_")
def to_(I, x, *a, **kw):
    if not isinstance(x, T):
        return unk_from(I, "to", (x,))
    dt, dev = kw.get("dtype"), kw.get("device")
    unknown = False
    for v in a:
        if isinstance(v, DT):
            dt = v
        elif isinstance(v, T):
            dt, dev = v.dtype, ("=", v.device)
        elif isinstance(v, bool) or v is None:
            pass
        else:
            dev = v
    if isinstance(dev, tuple) and len(dev) == 2 and dev[0] == "=":
        dv = dev[1]
    elif dev is None:
        dv = x.device
    else:
        dv = dev_of(I, dev)
    if dt is not None and not isinstance(dt, DT):
        out = convert(I, x, None, dv, True)
        out.dtype = None
        out.vn = H("cast", x, dt)
        return out
    r = convert(I, x, dt, dv, kw.get("copy") is True)
    if dv is None and r is x:
        r = x
    return r


@op("type_as")
def type_as(I, x, o):
    if not isinstance(o, T):
        return unk_from(I, "type_as", (x, o))
    r = convert(I, x, o.dtype, o.device)
    return r


@op("type", "type_")
def type_(I, x, dtype=None, **k):
    if dtype is None:
        return Unk("type string")
    if isinstance(dtype, DT):
        return convert(I, x, dtype)
    out = convert(I, x, None, None, True)
    out.dtype = None
    return out


for _n, _d in (("float", F32), ("double", F64), ("half", F16), ("bfloat16", BF16), ("long", I64), ("int", I32), ("bool", BOOL),
               ("cfloat", C64), ("cdouble", C128)):
    OPS[_n] = (lambda d: lambda I, x, *a, **k: convert(I, x, d))(_d)


@op("cpu")
def cpu(I, x, *a, **k):
    return convert(I, x, None, "cpu")


@op("cuda")
def cuda(I, x, *a, **k):
    return convert(I, x, None, "cuda")


@op("numpy")
def numpy_(I, x, *a, **k):
    out = view(I, x, x.shape)
    out.kind = "ndarray"
    out.vn = x.vn
    if x.grad:
        out.grad = False
        out.sev = dict(out.sev)
        out.sev[I.site()] = "full"
    return out


@op("item", "tolist")
def item(I, x, *a):
    if not isinstance(x, T):
        return unk_from(I, "item", (x,))
    if x.val is not None and not x.data:
        return x.val
    r = Flt(H("item", x), x.lo, x.hi, x.data)
    r.mix, r.nan = x.mix, x.nan
    r.sev = dict(x.sev)
    if x.grad:
        r.sev[I.site()] = "full"
    if x.data and x.shape is not None and x.shape:
        pass
    r.isint = x.dtype is not None and x.dtype.kind in "ib"
    # phase-dependence does not survive in Flt: remember bad status
    return r


@op("is_complex")
def is_complex(I, x):
    if isinstance(x, T) and x.dtype is not None:
        return x.dtype.kind == "c"
    if not isinstance(x, (T, Unk)):
        I.error("TypeError", "is_complex(): argument must be a tensor", "op")
    return BCond(H("is_complex", x))


@op("is_floating_point")
def is_fp(I, x):
    if isinstance(x, T) and x.dtype is not None:
        return x.dtype.kind == "f"
    return BCond(H("is_fp", x))


@op("is_tensor")
def is_tensor(I, x):
    return isinstance(x, T) if not isinstance(x, Unk) else BCond(H("is_tensor", x))


@op("is_contiguous")
def is_contig(I, x, *a):
    return BCond(H("is_contiguous", x))


@op("dim", "ndimension")
def dim_(I, x):
    return len(x.shape) if x.shape is not None else Unk("ndim")


@op("size")
def size_(I, x, dim=None):
    if x.shape is None:
        return Unk("size")
    if dim is None:
        return Size(lower(d.size) for d in x.shape)
    return lower(x.shape[dim_index(I, x, dim)].size)


@op("numel", "nelement", "__len__")
def numel(I, x):
    if x.shape is None:
        return Unk("numel")
    p = P(1)
    for d in x.shape:
        p = p * d.size
    return lower(p)


@op("get_device")
def get_device(I, x):
    return Unk("device index")


class Stride:
    """symbolic stride of one axis"""

    def __init__(self, axis, n):
        self.axis, self.n = axis, n

    @property
    def vn(self):
        return ("stride", self.axis - self.n)


@op("stride")
def stride(I, x, dim=None):
    if x.shape is None:
        return Unk("stride")
    n = len(x.shape)
    if dim is None:
        return tuple(Stride(i, n) for i in range(n))
    return Stride(dim_index(I, x, dim), n)


@op("as_strided")
def as_strided(I, x, size, stride, storage_offset=None):
    sz = as_sizes(I, (size,))
    if sz is None or x.shape is None or not isinstance(stride, (tuple, list)) or storage_offset not in (None, 0) \
            or not all(isinstance(s, Stride) for s in stride):
        out = view(I, x, None if sz is None else [Dim.of(s) for s in sz])
        return set_unk(out)
    if len(sz) != len(stride):
        I.error("RuntimeError", "as_strided: size and stride differ in length", "shape")
    n = len(x.shape)
    use = {}
    for i, s in enumerate(stride):
        use.setdefault(s.axis, []).append(i)
    shape = [None] * len(sz)
    lost = False
    for i, s in enumerate(stride):
        d = x.shape[s.axis]
        if len(use[s.axis]) == 1:
            if I.facts.prove_eq(d.size, sz[i]):
                shape[i] = d
            else:
                w = I.facts.refute_ge0(d.size - sz[i])
                if w is not None and s.axis != 0:
                    pass
                shape[i] = Dim.of(sz[i], d.atoms[0].role if len(d.atoms) == 1 else None)
                lost = lost or d.charged()
        else:
            # overlapping windows of one axis
            idx = use[s.axis]
            tot = P(1 - len(idx))
            for k in idx:
                tot = tot + sz[k]
            if i == idx[0]:
                if not I.facts.prove_ge0(d.size - tot):
                    w = I.facts.refute_ge0(d.size - tot)
                    if w is not None:
                        I.error("RuntimeError", "as_strided: window reads past the end of the axis (%r > %r, e.g. %s)" % (tot, d.size, O.show_env(w)), "shape")
            role = d.atoms[0].role if len(d.atoms) == 1 else None
            fr = idx[-1]
            nf = I.flags.get("n_frames")
            if nf is not None and len(idx) == 2 and I.facts.prove_eq(sz[idx[0]], P(nf)) and not I.facts.prove_eq(sz[idx[1]], P(nf)):
                fr = idx[0]
            if i == fr:
                shape[i] = Dim.of(sz[i], role)
            else:
                at = Atom(sz[i], None, (), None, (0, 1) if role == "frame" else None)
                shape[i] = Dim((at,)) if as_int(sz[i]) != 1 else Dim(())
            lost = lost or d.charged()
    out = view(I, x, shape)
    out.vn = H("as_strided", x, [lower(s) for s in sz], [s.vn for s in stride])
    if lost or x.comp or x.ri or x.qe:
        if out.qst == "ok":
            set_unk(out)
    from . import linform
    linform.opaque_view(I, x, out)
    return out


@op("unfold")
def unfold(I, x, dimension, size, step):
    d = dim_index(I, x, dimension)
    dd = x.shape[d]
    if as_int(step) == 1:
        n = dd.size - P(size) + 1
        role = dd.atoms[0].role if len(dd.atoms) == 1 else None
        shape = list(x.shape)
        # out[.., i, .., j] = x[.., i + j, ..]: the two new axes are symmetric, the frames are the axis of that size
        nf = I.flags.get("n_frames")
        swap = nf is not None and I.facts.prove_eq(P(size), P(nf)) and not I.facts.prove_eq(n, P(nf))

        def shift(z):
            return Dim((Atom(P(z), None, (), None, (0, 1) if role == "frame" else None),)) if as_int(z) != 1 else Dim(())
        shape[d] = shift(n) if swap else Dim.of(n, role)
        shape.append(Dim.of(P(size), role) if swap else shift(size))
        out = view(I, x, shape)
        if dd.charged() or x.comp or x.ri or x.qe:
            set_unk(out) if out.qst == "ok" else None
        return out
    out = view(I, x, None)
    return set_unk(out)


@op("pad", "constant_pad_nd")
def pad(I, x, pad, mode="constant", value=None):
    if not isinstance(x, T):
        return unk_from(I, "pad", (x,))
    if x.shape is None or not isinstance(pad, (tuple, list)) or len(pad) % 2 or any(isinstance(p, (Unk, SymRep, Flt)) for p in pad):
        out = mk(I, (x,), None, x.dtype)
        return set_unk(out) if not neutral(x) else out
    n = len(x.shape)
    if len(pad) // 2 > n:
        I.error("RuntimeError", "pad has more entries than dimensions", "shape")
    shape = list(x.shape)
    lags = x.lags
    lost = False
    changed = False
    val = value if value is not None else 0
    conv = x.conv
    toff = x.attrs.get("toff") if x.attrs else None
    spec = None
    for k in range(len(pad) // 2):
        l, r = P(pad[2 * k]), P(pad[2 * k + 1])
        i = n - 1 - k
        d = shape[i]
        if as_int(l) == 0 and as_int(r) == 0:
            continue
        ns = d.size + l + r
        if not I.facts.prove_ge0(ns):
            w = I.facts.refute_ge0(ns)
            if w is not None:
                I.error("RuntimeError", "pad gives a negative size (e.g. %s)" % O.show_env(w), "shape")
        changed = True
        if batch_roles(d.atoms) and x.data:
            I.event("mix", "padding of a batch axis")
        if len(d.atoms) == 1:
            a = d.atoms[0]
            if a.role == "frame" and lags:
                lags = frozenset((lower(P(lo) - l), lower(P(hi) - l)) for lo, hi in lags)
                if not (mode == "constant" and O.scal_zero(val)):
                    I.event("frame_pad", "frames before the start are not treated as silence (mode %s, value %r)" % (mode, val))
                    x = x.clone()
                    x.taint = x.taint | frozenset([("padvalue", I.site())])
            shape[i] = Dim((a.rep(size=ns, q=qshift(a.q, -l), d=None, lag=None if a.lag is None else (lower(P(a.lag[0]) - l * a.lag[1]), a.lag[1])),))
        elif not d.atoms:
            shape[i] = Dim.of(ns)
        else:
            shape[i] = Dim.of(ns)
            lost = lost or d.charged()
        if toff is not None and k == 0:
            toff = lower(P(toff) - l)
        if conv is not None and k == 0:
            conv = dict(conv, start=lower(P(conv["start"]) - l), length=lower(ns))
    if not changed:
        return clone(I, x)
    out = mk(I, (x,), shape, x.dtype)
    out.lags = lags
    out.lo = "ge0" if x.lo in ("ge0", "gt0", "gtc") and O.scal_zero(val) else ("unk" if x.lo == "unk" else ("any" if x.lo in ("any", "nz") else lo_join(x.lo, O.scal_lo(I, val))))
    out.hi = bool(x.hi)
    out.qst, out.qs, out.dl = x.qst, x.qs, ()
    out.taint = x.taint
    out.conv = conv
    if toff is not None:
        out.attrs = {"toff": toff}
    if not O.scal_zero(val) and mode == "constant" and out.qst in ("ok", "zero") and not neutral(x):
        set_unk(out)
    if lost or x.comp or x.ri or x.qe:
        if out.qst == "ok":
            set_unk(out)
    if x.spec is not None:
        pass
    if x.attrs and "sigid" in x.attrs:
        out.attrs = dict(x.attrs)
    return out


# ------------------------------------------------------------------ fourier
def fft_common(I, x, n, dim, kind):
    if not isinstance(x, T) or x.shape is None:
        return unk_from(I, kind, (x,))
    d = dim_index(I, x, dim if dim is not None else -1)
    L = x.shape[d].size
    return d, L


@op("rfft", "fft")
def rfft(I, x, n=None, dim=-1, norm=None, onesided=True):
    r = fft_common(I, x, n, dim, "rfft")
    if isinstance(r, Unk):
        return r
    d, L = r
    N = P(n) if n is not None else L
    I.event("fft", "rfft", lower(N), lower(L), d - len(x.shape))
    half = I.facts.floordiv(N, 2) + 1
    shape = list(x.shape)
    shape[d] = Dim((Atom(half, "fftbin"),))
    out = mk(I, (x,), shape, x.dtype.cplx() if x.dtype else None)
    if x.data:
        note_mix(I, out, x.shape[d].atoms, "fft over batch")
    if not neutral(x) and x.qst == "ok":
        set_unk(out)
    out.spec = {"N": N, "L": L, "axis": d - len(x.shape), "ops": [x.vn], "lens": [L], "norm": norm, "kind": "rfft", "src": [x]}
    return out


@op("fft_full")
def fft_full(I, x, n=None, dim=-1, norm=None):
    r = fft_common(I, x, n, dim, "fft")
    if isinstance(r, Unk):
        return r
    d, L = r
    N = P(n) if n is not None else L
    shape = list(x.shape)
    shape[d] = Dim((Atom(N, "fftbin"),))
    out = mk(I, (x,), shape, x.dtype.cplx() if x.dtype else None)
    if x.data:
        note_mix(I, out, x.shape[d].atoms, "fft over batch")
    if not neutral(x) and x.qst == "ok":
        set_unk(out)
    out.spec = {"N": N, "L": L, "axis": d - len(x.shape), "ops": [x.vn], "lens": [L], "norm": norm, "kind": "fft", "src": [x]}
    return out


OPS["fft"] = fft_full


def spec_mul(I, A, B, out):
    if A.spec is not None and B.spec is not None:
        if len(A.spec["ops"]) == 1 and len(B.spec["ops"]) == 1:
            out.spec = {"N": A.spec["N"], "N2": B.spec["N"], "axis": A.spec["axis"], "axis2": B.spec["axis"],
                        "ops": A.spec["ops"] + B.spec["ops"], "lens": A.spec["lens"] + B.spec["lens"],
                        "norm": (A.spec["norm"], B.spec["norm"]), "kind": (A.spec["kind"], B.spec["kind"]),
                        "conj": A.spec.get("conj", False) or B.spec.get("conj", False),
                        "src": A.spec["src"] + B.spec["src"]}


O.spec_mul = spec_mul


@op("irfft", "ifft")
def irfft(I, x, n=None, dim=-1, norm=None):
    r = fft_common(I, x, n, dim, "irfft")
    if isinstance(r, Unk):
        return r
    d, L = r
    N = P(n) if n is not None else (L - 1) * 2
    shape = list(x.shape)
    shape[d] = Dim((Atom(N, "time"),)) if as_int(N) != 1 else Dim(())
    out = mk(I, (x,), shape, x.dtype.real() if x.dtype else None)
    if x.spec is not None and len(x.spec["ops"]) == 2:
        out.conv = {"N": N, "spec": x.spec, "start": 0, "length": lower(N), "axis": d - len(x.shape), "norm": norm}
    return out


@op("ifft")
def ifft(I, x, n=None, dim=-1, norm=None):
    r = fft_common(I, x, n, dim, "ifft")
    if isinstance(r, Unk):
        return r
    d, L = r
    N = P(n) if n is not None else L
    shape = list(x.shape)
    shape[d] = Dim((Atom(N, "time"),)) if as_int(N) != 1 else Dim(())
    out = mk(I, (x,), shape, x.dtype)
    if x.spec is not None and len(x.spec["ops"]) == 2:
        out.conv = {"N": N, "spec": x.spec, "start": 0, "length": lower(N), "axis": d - len(x.shape), "norm": norm}
    return out


STFT_DEFAULTS = {"hop_length": None, "win_length": None, "window": None, "center": True, "pad_mode": "reflect",
                 "normalized": False, "onesided": None, "return_complex": None}
ISTFT_DEFAULTS = {"hop_length": None, "win_length": None, "window": None, "center": True, "normalized": False, "onesided": None,
                  "length": None, "return_complex": False}


def bind_defaults(I, name, order, a, kw):
    vals = dict(order)
    names = list(order)
    if len(a) > len(names):
        I.error("TypeError", "%s: too many arguments" % name, "signature")
    for k, v in zip(names, a):
        vals[k] = v
    for k, v in kw.items():
        if k not in vals and k != "align_to_window":
            I.error("TypeError", "%s: unexpected argument %s" % (name, k), "signature")
        vals[k] = v
    return vals


@op("stft")
def stft(I, x, n_fft, *a, **kw):
    v = bind_defaults(I, "stft", STFT_DEFAULTS, a, kw)
    if not isinstance(x, T) or x.shape is None or isinstance(n_fft, Unk):
        return unk_from(I, "stft", (x,))
    if len(x.shape) not in (1, 2):
        I.error("RuntimeError", "stft expects a 1- or 2-dimensional signal, got %d dimensions" % len(x.shape), "shape")
    n = P(n_fft)
    hop = P(v["hop_length"]) if v["hop_length"] is not None else I.facts.floordiv(n, 4)
    win = P(v["win_length"]) if v["win_length"] is not None else n
    if isinstance(v["window"], T):
        w = v["window"]
        if w.shape is not None:
            if len(w.shape) != 1:
                I.error("RuntimeError", "stft: window must be one-dimensional", "shape")
            size_must_equal(I, w.shape[0].size, win, "stft window")
        O.join_device(I, [x, w])
        if w.dtype is not None and x.dtype is not None and w.dtype is not x.dtype:
            I.event("window_dtype", w.dtype.name, x.dtype.name)
    L = x.shape[-1].size
    ft = P(n)
    onesided = v["onesided"] is not False
    nf = (I.facts.floordiv(n, 2) + 1) if onesided else n
    if v["center"] is True:
        fr = I.facts.floordiv(L + 2 * I.facts.floordiv(n, 2) - n, hop) + 1
    elif v["center"] is False:
        fr = I.facts.floordiv(L - n, hop) + 1
    else:
        fr = I.fresh("frames")
    shape = list(x.shape[:-1]) + [Dim.of(nf, "freq"), Dim.of(fr, "frame")]
    if v["return_complex"] is False:
        shape.append(Dim.of(2))
    dt = x.dtype.cplx() if x.dtype else None
    ins = [x] + ([v["window"]] if isinstance(v["window"], T) else [])
    out = mk(I, ins, shape, dt if v["return_complex"] is not False else x.dtype)
    if x.data:
        note_mix(I, out, x.shape[-1].atoms, "stft over batch")
    I.event("stft", {"n_fft": vnof(n), "hop": vnof(hop), "win": vnof(win), "window": vnof(v["window"]), "center": v["center"],
                     "normalized": v["normalized"], "onesided": onesided, "pad_mode": v["pad_mode"], "return_complex": v["return_complex"],
                     "x": x.vn})
    out.vn = H("stft", x, n, hop, win, v["window"], v["center"], v["normalized"], onesided, v["pad_mode"])
    out.attrs = {"stft": (x.vn, n, hop, lower(L), v)}
    return out


@op("istft")
def istft(I, X, n_fft, *a, **kw):
    v = bind_defaults(I, "istft", ISTFT_DEFAULTS, a, kw)
    if not isinstance(X, T) or X.shape is None:
        return unk_from(I, "istft", (X,))
    if len(X.shape) not in (2, 3):
        I.error("RuntimeError", "istft expects 2 or 3 dimensions, got %d" % len(X.shape), "shape")
    n = P(n_fft)
    hop = P(v["hop_length"]) if v["hop_length"] is not None else I.facts.floordiv(n, 4)
    win = P(v["win_length"]) if v["win_length"] is not None else n
    onesided = v["onesided"] is not False
    nf = (I.facts.floordiv(n, 2) + 1) if onesided else n
    size_must_equal(I, X.shape[-2].size, nf, "istft number of frequencies")
    if X.dtype is not None and X.dtype.kind != "c":
        I.error("RuntimeError", "istft expects complex input", "dtype")
    ins = [X]
    if isinstance(v["window"], T):
        w = v["window"]
        if w.shape is not None:
            size_must_equal(I, w.shape[0].size, win, "istft window")
        O.join_device(I, [X, w])
        ins.append(w)
    N = X.shape[-1].size
    if v["length"] is not None:
        L = P(v["length"]) if isinstance(v["length"], (int, Poly)) else I.fresh("istftlen")
    elif v["center"] is True:
        L = n + hop * (N - 1) - 2 * I.facts.floordiv(n, 2)
    else:
        L = n + hop * (N - 1)
    out = mk(I, ins, list(X.shape[:-2]) + [Dim.of(L, "time")], X.dtype.real() if X.dtype else None)
    if X.data:
        for d in X.shape[-2:]:
            note_mix(I, out, d.atoms, "istft over batch")
    if v["length"] is not None and v["center"] is True:
        # asking for more samples than the frames cover pads with zeros; fine
        pass
    I.event("istft", {"n_fft": vnof(n), "hop": vnof(hop), "win": vnof(win), "window": vnof(v["window"]), "center": v["center"],
                      "normalized": v["normalized"], "onesided": onesided, "x": X.vn, "length": vnof(v["length"])})
    out.attrs = {"toff": 0 if v["center"] is not False else None}
    if out.attrs["toff"] is None:
        out.attrs = None
    out.vn = H("istft", X, n, hop, win, v["window"], v["center"], v["normalized"], onesided, v["length"])
    return out


# ------------------------------------------------------------------ in-place variants
INPLACE = ["add_", "sub_", "mul_", "div_", "pow_", "neg_", "square_", "exp_", "reciprocal_", "abs_", "sqrt_", "clamp_", "clip_", "clamp_min_",
           "clamp_max_", "log_", "relu_", "sigmoid_", "masked_fill_", "nan_to_num_", "addcmul_", "addcdiv_", "tanh_", "round_"]


def call_inplace(I, name, args, kwargs):
    x = args[0]
    base = name[:-1]
    if base in ("fill", "zero"):
        v = 0 if base == "zero" else args[1]
        return fill_(I, x, v)
    if base == "copy":
        src = args[1]
        return O.setitem(I, x, Ellipsis, src) or x
    if base in ("uniform", "normal", "random", "exponential"):
        return uniform_(I, x, *args[1:], **kwargs)
    if base in ("requires_grad", "share_memory", "detach"):
        return x
    if base in ("squeeze", "unsqueeze", "transpose", "t", "index_add", "index_copy", "index_fill", "scatter", "scatter_add"):
        O.inplace_target(I, x, name)
        if base in ("index_add", "index_copy", "index_fill", "scatter", "scatter_add"):
            r = x.clone()
            vals = [a for a in args[1:] if isinstance(a, T)]
            r = mk(I, [x] + vals, x.shape, x.dtype)
            set_unk(r)
            r.lo = "unk"
            x.become(r)
            x.vn = H(name, args)
            O.mod_parent(I, x, r)
        return x
    r = call_op(I, base, args, kwargs)
    if isinstance(r, T):
        O.inplace_update(I, x, r, name)
    else:
        O.inplace_target(I, x, name)
        set_unk(x)
    return x


def fill_(I, x, v):
    r = x.clone()
    r.lo = O.scal_lo(I, v)
    r.hi = True
    r.data = False
    r.nan = frozenset()
    r.lags = frozenset()
    set_neutral(r)
    r.qst = "zero" if O.scal_zero(v) else "ok"
    r.vn = H("fill", v, [d.size for d in x.shape] if x.shape is not None else None)
    r.grad, r.sev, r.mix = False, {}, frozenset()
    O.inplace_target(I, x, "fill")
    x.become(r)
    O.mod_parent(I, x, r)
    return x


@op("scatter", "index_add", "index_copy", "index_fill", "scatter_add", "index_put")
def scatter(I, x, *a, **k):
    vals = [v for v in a if isinstance(v, T)] + [v for v in k.values() if isinstance(v, T)]
    r = mk(I, [x] + vals, x.shape, x.dtype)
    set_unk(r)
    r.lo = "unk"
    return r


@op("nonzero", "unique", "bincount", "histc")
def nonzero(I, x, *a, **k):
    u = unk_from(I, "nonzero", (x,))
    return u


@op("meshgrid", "cartesian_prod")
def meshgrid(I, *a, **k):
    return unk_from(I, "meshgrid", a)


@op("cov", "corrcoef", "cdist", "kron", "cross")
def cov(I, *a, **k):
    return unk_from(I, "cov", a)


@op("register_hook", "retain_grad", "backward")
def hook(I, x, *a, **k):
    return None


@op("histogram")
def hist(I, *a, **k):
    return unk_from(I, "hist", a)
