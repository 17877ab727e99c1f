"""Abstract values of the torchiva analyser."""
import hashlib
from .poly import Poly, P, lower


DEFS = None      # value number -> operands, when a check wants expressions


def H(*xs):
    h = hashlib.blake2b(digest_size=12)
    k = tuple(vnof(x) for x in xs)
    h.update(repr(k).encode())
    r = h.hexdigest()
    if DEFS is not None:
        DEFS[r] = k
    return r


def record_defs(on=True):
    global DEFS
    DEFS = {} if on else None
    return DEFS


def expr(vn):
    """the operation and operands of a value number, or None"""
    return DEFS.get(vn) if DEFS is not None and isinstance(vn, str) else None


def vnof(x):
    """structural value number of an abstract or concrete value"""
    if isinstance(x, (T, Flt, Unk, AStr)):
        return x.vn
    if isinstance(x, Poly):
        c = x.as_int()
        if isinstance(c, int):
            return ("i", c)
        return ("p", repr(x.key()))
    if isinstance(x, bool) or x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, int):
        return ("i", x)
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, (tuple, list)):
        return ("t",) + tuple(vnof(y) for y in x)
    if isinstance(x, dict):
        return ("d",) + tuple((vnof(k), vnof(v)) for k, v in x.items())
    if isinstance(x, slice):
        return ("s", vnof(x.start), vnof(x.stop), vnof(x.step))
    if isinstance(x, SymRep):
        return ("rep", vnof(x.elem), vnof(x.n))
    if hasattr(x, "vn"):
        return x.vn
    if x is Ellipsis:
        return "..."
    return str(x)


class DT:
    """a torch dtype"""
    ALL = {}

    def __init__(self, name, kind, bits):
        self.name, self.kind, self.bits = name, kind, bits
        DT.ALL[name] = self

    def __repr__(self):
        return "torch." + self.name

    @property
    def vn(self):
        return self.name

    @property
    def is_complex(self):
        return self.kind == "c"

    @property
    def is_float(self):
        return self.kind == "f"

    def real(self):
        return {"complex64": F32, "complex128": F64, "complex32": F16}.get(self.name, self)

    def cplx(self):
        return {"float32": C64, "float64": C128}.get(self.name, self)


BOOL = DT("bool", "b", 1)
U8 = DT("uint8", "i", 8)
I8 = DT("int8", "i", 8)
I16 = DT("int16", "i", 16)
I32 = DT("int32", "i", 32)
I64 = DT("int64", "i", 64)
F16 = DT("float16", "f", 16)
BF16 = DT("bfloat16", "f", 16)
F32 = DT("float32", "f", 32)
F64 = DT("float64", "f", 64)
C32 = DT("complex32", "c", 16)
C64 = DT("complex64", "c", 32)
C128 = DT("complex128", "c", 64)
DTALIAS = {"float": "float32", "double": "float64", "half": "float16", "int": "int32", "long": "int64",
           "cfloat": "complex64", "cdouble": "complex128", "short": "int16"}
CAT = {"b": 0, "i": 1, "f": 2, "c": 3}


def promote(a, b):
    """promotion of two dtypes of the same dimension class"""
    if a is None or b is None:
        return None
    if a is b:
        return a
    ka, kb = CAT[a.kind], CAT[b.kind]
    if ka < kb:
        a, b, ka, kb = b, a, kb, ka
    # a has the higher category
    if ka == kb:
        return a if a.bits >= b.bits else b
    if a.kind == "c":
        if b.kind == "f" and b.bits > a.bits:
            return b.cplx()
        return a
    return a


class Atom:
    """one factor of a tensor dimension.

    size : Poly          number of indices
    role : str or None   what the axis means (b0, chan, src, freq, frame, tap ...)
    q    : tuple of ((group, offset), coef)   phase charge carried by the index
    d    : None or (delta id, offset)         support restricted to a diagonal
    lag  : None or (offset, step)             index shifts the frame that is read
    """
    __slots__ = ("size", "role", "q", "d", "lag")

    def __init__(self, size, role=None, q=(), d=None, lag=None):
        self.size, self.role, self.q, self.d, self.lag = P(size), role, q, d, lag

    def __repr__(self):
        s = "%r" % self.size
        if self.role:
            s += ":" + self.role
        if self.q:
            s += "{" + ",".join("%+d%s@%r" % (c, g, o) for (g, o), c in self.q) + "}"
        if self.d:
            s += "~%s" % (self.d[0],)
        if self.lag:
            s += "^%r" % (self.lag,)
        return s

    def rep(self, **kw):
        a = Atom(self.size, self.role, self.q, self.d, self.lag)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def plain(self):
        return Atom(self.size, self.role, (), None, self.lag)

    def key(self):
        return (self.size, self.role, self.q, self.lag)


class Dim:
    __slots__ = ("atoms",)

    def __init__(self, atoms=()):
        self.atoms = tuple(atoms)

    @staticmethod
    def of(x, role=None):
        if isinstance(x, Dim):
            return x
        x = P(x)
        if x.is_const() and x.const() == 1:
            return Dim(())
        return Dim((Atom(x, role),))

    @property
    def size(self):
        p = P(1)
        for a in self.atoms:
            p = p * a.size
        return p

    def is1(self):
        return not self.atoms

    def charged(self):
        return any(a.q for a in self.atoms)

    def roles(self):
        return [a.role for a in self.atoms]

    def plain(self):
        return Dim(a.plain() for a in self.atoms)

    def __repr__(self):
        if not self.atoms:
            return "1"
        return "*".join(map(repr, self.atoms))


class Aff:
    """upper bound class: the value is a * u + b with u in (0, 1), u identified by key"""
    __slots__ = ("key", "a", "b")

    def __init__(self, key, a, b):
        self.key, self.a, self.b = key, a, b

    def __eq__(self, o):
        return isinstance(o, Aff) and (self.key, self.a, self.b) == (o.key, o.a, o.b)

    def __hash__(self):
        return hash((self.key, self.a, self.b))

    @property
    def sup(self):
        return max(self.a + self.b, self.b)

    @property
    def inf(self):
        return min(self.a + self.b, self.b)

    @staticmethod
    def add(x, y, sy=1):
        """x + sy * y for bounds or plain numbers; None if not of this form"""
        if isinstance(x, (int, float)) and isinstance(y, Aff):
            return Aff(y.key, sy * y.a, x + sy * y.b)
        if isinstance(x, Aff) and isinstance(y, (int, float)):
            return Aff(x.key, x.a, x.b + sy * y)
        if isinstance(x, Aff) and isinstance(y, Aff) and x.key == y.key:
            return Aff(x.key, x.a + sy * y.a, x.b + sy * y.b)
        return None


# charge status: "ok" (atoms.q + qs describe it), "zero" (identically zero,
# any charge), "unk" (not tracked), ("bad", site, why)
class T:
    __slots__ = ("shape", "dtype", "device", "data", "lo", "hi", "nan", "stor", "view_of", "grad", "sev",
                 "mix", "lags", "vn", "qst", "qs", "dl", "qe", "comp", "load", "eye", "kind", "spec",
                 "owner", "attrs", "lin", "herm", "cells", "val", "strides_of", "taint", "ri", "conv")

    def __init__(self, shape, dtype, device="cpu"):
        self.shape = None if shape is None else tuple(Dim.of(s) for s in shape)
        self.dtype = dtype
        self.device = device
        self.data = False        # depends on the analysed input
        self.lo = "any"          # any | ge0 | gt0 | gtc | nz | unk
        self.hi = False          # bounded above by a constant
        self.nan = frozenset()   # sites that may produce nan/inf
        self.stor = frozenset()  # caller storages this may alias
        self.view_of = None
        self.grad = False
        self.sev = {}
        self.mix = frozenset()
        self.lags = frozenset()
        self.vn = None
        self.qst = "ok"
        self.qs = ()
        self.dl = ()
        self.qe = None
        self.comp = None
        self.load = False        # plus positive multiple of identity: True/False/None
        self.eye = None          # None | "eye" | "pos" (positive multiple of I)
        self.kind = "tensor"     # tensor | ndarray | param | buffer
        self.spec = None
        self.owner = None
        self.attrs = None
        self.lin = None
        self.herm = False
        self.cells = None
        self.val = None
        self.strides_of = None
        self.taint = frozenset()
        self.ri = False          # last axis is the (real, imag) pair of a charged complex tensor
        self.conv = None

    def clone(self):
        t = T.__new__(T)
        for s in T.__slots__:
            setattr(t, s, getattr(self, s))
        t.sev = dict(self.sev)
        return t

    def become(self, o):
        """in-place update of the abstract value (object identity kept)"""
        for s in T.__slots__:
            if s in ("stor", "view_of", "kind", "owner", "attrs"):
                continue
            setattr(self, s, getattr(o, s))
        self.sev = dict(o.sev)

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def sizes(self):
        return None if self.shape is None else tuple(lower(d.size) for d in self.shape)

    def __repr__(self):
        return "T(%s, %s, %s%s)" % (
            "?" if self.shape is None else ", ".join(repr(d) for d in self.shape),
            self.dtype, self.device, qrepr(self))


def qrepr(t):
    if t.qst != "ok":
        return ", q=%s" % (t.qst,)
    if t.qs:
        return ", q=" + ",".join("%+d%s[%r]" % (c, g, o) for (g, o), c in t.qs)
    return ""


class Flt:
    """abstract python float"""
    __slots__ = ("vn", "lo", "hi", "data", "sev", "mix", "nan", "grad", "isint", "name")

    def __init__(self, vn, lo="any", hi=False, data=False, name=None):
        self.vn, self.lo, self.hi, self.data = vn, lo, hi, data
        self.sev, self.mix, self.nan, self.grad = {}, frozenset(), frozenset(), False
        self.isint = False
        self.name = name

    def __repr__(self):
        return "Flt(%s,%s)" % (self.name or self.vn, self.lo)


class Unk:
    """unknown value"""
    __slots__ = ("vn", "why", "data", "stor", "mix", "sev")

    def __init__(self, why="", vn=None):
        self.why = why
        self.vn = vn if vn is not None else ("unk", why)
        self.data = False
        self.stor = frozenset()
        self.mix = frozenset()
        self.sev = {}

    def __repr__(self):
        return "Unk(%s)" % self.why


class Cond:
    """abstract bool: relation between sizes"""
    __slots__ = ("op", "a", "b")

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, P(a), P(b)

    NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}

    def neg(self):
        return Cond(self.NEG[self.op], self.a, self.b)

    @property
    def vn(self):
        return H("cond", self.op, self.a, self.b)

    def __repr__(self):
        return "(%r %s %r)" % (self.a, self.op, self.b)


class BCond:
    """abstract bool: opaque, with a stable key"""
    __slots__ = ("vn", "mix", "data", "sev", "negated", "key", "fact")

    def __init__(self, vn, mix=frozenset(), data=False, sev=None, negated=False, fact=None):
        self.vn, self.mix, self.data, self.sev, self.negated = vn, mix, data, sev or {}, negated
        self.fact = fact      # tuple describing the predicate, e.g. ("is_dir", path)

    def neg(self):
        return BCond(self.vn, self.mix, self.data, self.sev, not self.negated, self.fact)

    def __repr__(self):
        return "BCond(%s%s)" % ("not " if self.negated else "", self.fact or self.vn)


class And:
    """conjunction/disjunction is evaluated by decisions, never stored"""


class SymRep:
    """n copies of elem inside a python list"""
    __slots__ = ("elem", "n")

    def __init__(self, elem, n):
        self.elem, self.n = elem, P(n)

    @property
    def vn(self):
        return H("rep", self.elem, self.n)


class AStr:
    """abstract string / path expression"""
    __slots__ = ("vn", "parts", "tp")

    def __init__(self, parts, tp="str"):
        self.parts = tuple(parts)
        self.tp = tp
        self.vn = H("astr", tp, *[p if isinstance(p, str) else repr(p) for p in self.parts])

    def __repr__(self):
        return "%s(%s)" % (self.tp, "+".join(map(repr, self.parts)))


class Size(tuple):
    pass


class NT(tuple):
    """named tuple value"""
    names = ()
    tname = ""

    @staticmethod
    def make(vals, names, tname=""):
        t = NT(vals)
        t.names = tuple(names)
        t.tname = tname
        return t


class Ext:
    """external (non-repository) name"""
    __slots__ = ("name",)
    CACHE = {}

    def __new__(cls, name):
        e = cls.CACHE.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls.CACHE[name] = e
        return e

    @property
    def vn(self):
        return ("ext", self.name)

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtObj:
    """instance of an external class"""
    __slots__ = ("cls", "attrs", "vn", "args", "kwargs", "home")

    def __init__(self, cls, args=(), kwargs=None, vn=None):
        self.cls = cls
        self.args = args
        self.kwargs = kwargs or {}
        self.attrs = {}
        self.vn = vn or H("extobj", cls, tuple(vnof(a) for a in args), {k: vnof(v) for k, v in self.kwargs.items()})
        self.home = None

    def __repr__(self):
        return "<%s>" % self.cls


class Cls:
    def __init__(self, name, module, node, bases, ns):
        self.name, self.module, self.node, self.bases, self.ns = name, module, node, bases, ns
        self.mro = None

    @property
    def vn(self):
        return ("cls", self.module, self.name)

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.params = {}     # registered parameters / buffers
        self.frozen = False

    @property
    def vn(self):
        return ("obj", self.cls.vn, getattr(self, "label", None))

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Fn:
    def __init__(self, name, node, module, closure, qual, defaults=(), kwdefaults=None, cls=None):
        self.name, self.node, self.module, self.closure, self.qual = name, node, module, closure, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.cls = cls
        self.wrap = ()
        self.attrs = {}

    @property
    def vn(self):
        return ("fn", self.module, self.qual)

    def __repr__(self):
        return "<fn %s.%s>" % (self.module, self.qual)


class BM:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn

    @property
    def vn(self):
        return ("bm", vnof(self.obj), vnof(self.fn))


class Bi:
    """builtin bound method / native handler"""
    def __init__(self, name, f, recv=None):
        self.name, self.f, self.recv = name, f, recv

    @property
    def vn(self):
        return ("bi", self.name, vnof(self.recv) if self.recv is not None else None)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class Mod:
    def __init__(self, name):
        self.name = name
        self.ns = {}

    @property
    def vn(self):
        return ("mod", self.name)

    def __repr__(self):
        return "<module %s>" % self.name


class AbsRaise(Exception):
    """an exception raised by the analysed program"""

    def __init__(self, kind, msg="", site=None, why="explicit", value=None):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg, self.site, self.why = kind, msg, site, why
        self.value = value


class Cut(Exception):
    """this path cannot be analysed further"""


class Infeasible(Exception):
    """contradictory path"""
