"""Python data model, builtins, torch.nn and the other external libraries, over the abstract domain."""
import builtins
import hashlib
import math
import os
import posixpath
import urllib.parse

from .poly import P, Poly, lower
from .vals import *
from .interp import RangeV, SymIter, EnumM, SuperV
from . import ops as O
from . import torchops as TO
from . import vfs as V

NUM = (int, float, complex)
EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

try:
    import json
    with open(os.path.join(os.path.dirname(__file__), "torch_members.json")) as _f:
        MEMBERS = {k: set(v) for k, v in json.load(_f).items()}
except OSError:
    MEMBERS = {}


def intlike(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


def concrete(v):
    if isinstance(v, (str, int, float, complex, bytes, bool)) or v is None:
        return True
    if isinstance(v, (tuple, list)):
        return all(concrete(x) for x in v)
    return False


# ------------------------------------------------------------------ classes
def finish_class(I, c):
    bases = c.bases or []
    seqs = []
    for b in bases:
        if isinstance(b, Cls):
            seqs.append(list(b.mro))
        else:
            seqs.append([b])
    seqs.append(list(bases))
    out = [c]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            I.error("TypeError", "cannot create a consistent method resolution order for %s" % c.name, "signature")
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    c.mro = out
    for k, v in c.ns.items():
        if isinstance(v, Fn) and v.cls is None:
            v.cls = c
        elif isinstance(v, Prop):
            for f in (v.fget, v.fset):
                if isinstance(f, Fn) and f.cls is None:
                    f.cls = c
        elif isinstance(v, Static) and isinstance(v.f, Fn) and v.f.cls is None:
            v.f.cls = c
    if any(isinstance(b, Ext) and b.name in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag") for b in c.mro):
        mem = {}
        for k in list(c.ns):
            v = c.ns[k]
            if k.startswith("_") or isinstance(v, (Fn, Prop, Static)):
                continue
            if isinstance(v, ExtObj) and v.cls == "enum.auto":
                v = len(mem) + 1
            m = EnumM(c, k, v)
            mem[k] = m
            c.ns[k] = m
        c.ns["__enum__"] = mem
    if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in c.mro):
        c.ns["__ntfields__"] = list(c.ns.get("__annotations__", []))


def class_lookup(I, cls, name):
    for c in cls.mro:
        if isinstance(c, Cls) and name in c.ns:
            return c.ns[name]
    return None


def lookup_from(I, cls, name, after=None):
    seen = after is None
    for c in cls.mro:
        if not seen:
            if c is after:
                seen = True
            continue
        if isinstance(c, Cls) and name in c.ns:
            return c, c.ns[name]
    return None, None


def is_module_cls(c):
    return any(isinstance(b, Ext) and (b.name == "torch.nn.Module" or b.name.startswith("torch.nn.")) for b in c.mro)


KNOWN_BASES = ("torch.nn.Module", "builtins.object", "abc.ABC", "enum.Enum", "typing.NamedTuple", "typing.Protocol", "typing.Generic",
               "builtins.str", "builtins.int")


def open_bases(c):
    """bases whose members the analysis does not know"""
    return [b for b in c.mro if isinstance(b, Ext) and b.name not in KNOWN_BASES and b.name.split(".")[-1] not in EXC]


def is_module(v):
    if isinstance(v, Obj):
        return is_module_cls(v.cls)
    return isinstance(v, ExtObj) and (v.cls in LAYERS or v.cls in ("torch.nn.ModuleList", "torch.nn.Sequential", "torch.nn.ModuleDict"))


# ------------------------------------------------------------------ attribute access
def getattr_(I, v, name):
    r = getattr_raw(I, v, name)
    return r


def getattr_raw(I, v, name):
    if isinstance(v, Mod):
        if name in v.ns:
            return v.ns[name]
        if v.name + "." + name in I.prog.trees and (v.name + "." + name) in I.modules:
            return I.modules[v.name + "." + name]
        if name == "__dict__":
            return v.ns
        if name in ("__name__", "__file__", "__path__", "__doc__"):
            return AStr((v.name, name))
        if v.name + "." + name in I.prog.trees:
            return I.import_module(v.name + "." + name)
        I.error("AttributeError", "module %r has no attribute %r" % (v.name, name), "attr")
    if isinstance(v, Ext):
        return ext_attr(I, v, name)
    if isinstance(v, T):
        return tensor_attr(I, v, name)
    if isinstance(v, Obj):
        return obj_attr(I, v, name)
    if isinstance(v, SuperV):
        c, m = lookup_from(I, v.obj.cls if isinstance(v.obj, Obj) else v.obj, name, v.cls)
        if m is not None:
            return bindm(I, v.obj, m)
        if isinstance(v.obj, Obj) and is_module(v.obj):
            r = module_method(I, v.obj, name)
            if r is not None:
                return r
        if name in ("__init__", "__init_subclass__", "__setattr__", "__post_init__"):
            def init(I_, *a, **k):
                if isinstance(v.obj, Obj):
                    v.obj.attrs.setdefault("__modinit__", True)
            if name == "__setattr__":
                return Bi(name, lambda I_, k, x: raw_setattr(I, v.obj, k, x), v.obj)
            return Bi(name, init, v.obj)
        if name in ("__repr__", "__str__", "extra_repr"):
            return Bi(name, lambda I_: AStr(("repr",)), v.obj)
        cl = v.obj.cls if isinstance(v.obj, Obj) else v.obj
        if open_bases(cl):
            return Unk("super attribute")
        I.error("AttributeError", "'super' object has no attribute %r" % name, "attr")
    if isinstance(v, Cls):
        if v.ns.get("__enum__") is not None:
            mem = v.ns["__enum__"]
            if name in mem:
                return mem[name]
            if name == "_value2member_map_":
                return {m.value: m for m in mem.values()}
            if name in ("__members__", "_member_map_"):
                return dict(mem)
            if name == "_member_names_":
                return list(mem)
        m = class_lookup(I, v, name)
        if m is not None:
            if isinstance(m, Static):
                return m.f if m.kind == "staticmethod" else BM(v, m.f)
            return m
        if name in ("__name__", "__qualname__"):
            return v.name
        if name == "__module__":
            return v.module
        if name in ("__doc__", "__dict__", "__mro__", "__bases__", "__init__", "__new__", "__subclasses__"):
            return Unk("class " + name)
        if is_module_cls(v) and name in MODULE_METHODS:
            return Bi(name, lambda I_, self, *a, **k: I_.call(module_method(I_, self, name), list(a), k))
        if open_bases(v):
            return Unk("class attribute")
        I.error("AttributeError", "type object %r has no attribute %r" % (v.name, name), "attr")
    if isinstance(v, EnumM):
        if name == "value":
            return v.value
        if name == "name":
            return v.name
        m = class_lookup(I, v.cls, name)
        if isinstance(m, Fn):
            return BM(v, m)
        if isinstance(m, Prop):
            return I.call(m.fget, [v], {})
        if isinstance(m, EnumM):
            return m
        I.error("AttributeError", "%r has no attribute %r" % (v, name), "attr")
    if isinstance(v, NT):
        if name in v.names:
            return v[v.names.index(name)]
        if name == "_asdict":
            return Bi(name, lambda I_: dict(zip(v.names, v)))
        if name == "_replace":
            return Bi(name, lambda I_, **k: NT.make([k.get(n, x) for n, x in zip(v.names, v)], v.names, v.tname))
        if name in ("_fields",):
            return v.names
        if name in v.names or name in ("index", "count"):
            return Unk(name)
        I.error("AttributeError", "%s has no attribute %r" % (v.tname or "named tuple", name), "attr")
    if isinstance(v, V.PathV):
        return V.path_attr(I, v, name)
    if isinstance(v, ExtObj):
        return extobj_attr(I, v, name)
    if isinstance(v, DT):
        if name == "is_complex":
            return v.is_complex
        if name == "is_floating_point":
            return v.is_float
        if name in ("to_real",):
            return Bi(name, lambda I_: v.real())
        if name in ("to_complex",):
            return Bi(name, lambda I_: v.cplx())
        if name == "itemsize":
            return v.bits // 8 * (2 if v.kind == "c" else 1)
        return Unk("dtype attr")
    if isinstance(v, tuple) and v[:1] == ("dev",) and len(v) == 2:
        if name == "type":
            return "cpu" if v[1] == "cpu" else AStr(("devtype", str(v[1])))
        if name == "index":
            return None if v[1] == "cpu" else Unk("device index")
        return Unk("device attr")
    if isinstance(v, (Size, list, tuple, dict, str, set, frozenset, bytes, RangeV, int, float, complex, Poly, Flt)) and not isinstance(v, bool):
        return py_attr(I, v, name)
    if isinstance(v, AStr):
        return astr_attr(I, v, name)
    if isinstance(v, Prop):
        if name == "setter":
            return Bi("setter", None, v)
        return Unk("property attr")
    if isinstance(v, Fn):
        if name in v.attrs:
            return v.attrs[name]
        if name in ("__name__", "__qualname__"):
            return v.name
        if name in ("__doc__", "__module__", "__wrapped__", "__code__", "__defaults__", "__dict__"):
            return Unk("fn attr")
        if name in ("cache_clear", "cache_info"):
            return Bi(name, lambda I_: None)
        I.error("AttributeError", "function %s has no attribute %r" % (v.name, name), "attr")
    if isinstance(v, BM):
        if name == "__self__":
            return v.obj
        if name == "__func__":
            return v.fn
        return getattr_raw(I, v.fn, name)
    if isinstance(v, Unk):
        u = I.derive_unk(v, "." + name)
        return u
    if v is None:
        if name in ("__class__", "__doc__"):
            return Unk("None attr")
        I.error("AttributeError", "'NoneType' object has no attribute %r" % name, "attr")
    if isinstance(v, SymRep):
        return Unk("rep attr")
    if isinstance(v, AbsRaise):
        return Unk("exception attr")
    if isinstance(v, (Cond, BCond, bool)):
        if name in ("item", "all", "any", "sum"):
            return Bi(name, lambda I_, *a, **k: v)
        return Unk("bool attr")
    return Unk("attr %s" % name, H("attr", v, name))


def bindm(I, obj, m):
    if isinstance(m, Prop):
        return I.call(m.fget, [obj], {})
    if isinstance(m, Fn):
        return BM(obj, m)
    if isinstance(m, Static):
        if m.kind == "staticmethod":
            return m.f
        return BM(obj.cls if isinstance(obj, Obj) else obj, m.f)
    return m


def obj_attr(I, o, name):
    m = class_lookup(I, o.cls, name)
    if isinstance(m, Prop):
        return I.call(m.fget, [o], {})
    if name in o.attrs and name != "__modinit__":
        return o.attrs[name]
    if m is not None:
        return bindm(I, o, m)
    if name == "__class__":
        return o.cls
    if name == "__dict__":
        return dict(o.attrs)
    if is_module(o):
        r = module_method(I, o, name)
        if r is not None:
            return r
        if name == "training":
            return o.attrs.get("training", True)
        if name in ("_modules", "_parameters", "_buffers"):
            return Unk("module dict")
    f = class_lookup(I, o.cls, "__getattr__")
    if isinstance(f, Fn):
        return I.call(BM(o, f), [name], {})
    if open_bases(o.cls):
        return Unk("inherited attribute " + name, H("oattr", o.vn, name))
    if name in ("__doc__", "__module__", "__repr__", "__str__", "__eq__", "__hash__", "__setattr__"):
        return Unk("object " + name)
    I.error("AttributeError", "%r object has no attribute %r" % (o.cls.name, name), "attr")


def setattr_(I, o, name, v):
    if isinstance(o, Obj):
        f = class_lookup(I, o.cls, "__setattr__")
        if isinstance(f, Fn):
            return I.call(BM(o, f), [name, v], {})
        return raw_setattr(I, o, name, v)
    if isinstance(o, (Mod, Ext)):
        I.event("global_effect", "assignment to %s.%s" % (o.name, name))
        if isinstance(o, Mod):
            o.ns[name] = v
        return
    if isinstance(o, Cls):
        I.event("class_write", o.name, name)
        o.ns[name] = v
        return
    if isinstance(o, ExtObj):
        o.attrs[name] = v
        return
    if isinstance(o, T):
        if name == "data":
            O.setitem(I, o, Ellipsis, v)
            return
        if name in ("real", "imag"):
            O.inplace_target(I, o, name)
            Q.set_unk(o)
            o.lo = "unk"
            o.vn = H("setri", o.vn, name, v)
            return
        if name == "requires_grad":
            return
        if o.attrs is None:
            o.attrs = {}
        return
    if isinstance(o, Fn):
        o.attrs[name] = v
        I.event("class_write", o.name, name)
        return
    if isinstance(o, NT) or isinstance(o, EnumM):
        I.error("AttributeError", "can't set attribute %r" % name, "attr")
    if o is None:
        I.error("AttributeError", "'NoneType' object has no attribute %r" % name, "attr")


from . import charge as Q


def raw_setattr(I, o, name, v):
    m = class_lookup(I, o.cls, name)
    if isinstance(m, Prop):
        if is_module(o) and (is_module(v) or isinstance(v, T) and v.kind == "param"):
            o.attrs[name] = v
            return
        if m.fset is None:
            I.error("AttributeError", "property %r of %r object has no setter" % (name, o.cls.name), "attr")
        I.call(m.fset, [o, v], {})
        return
    if is_module_cls(o.cls):
        if (is_module(v) or isinstance(v, T) and v.kind == "param") and not o.attrs.get("__modinit__"):
            I.error("AttributeError", "cannot assign a module or parameter before Module.__init__() call", "attr")
        if isinstance(v, T) and v.kind == "param":
            o.params[name] = "param"
        elif name in o.params:
            if o.params[name] == "param" and isinstance(v, T):
                I.error("TypeError", "cannot assign a tensor as parameter %r" % name, "attr")
            if o.params[name] == "buffer" and v is not None and not isinstance(v, (T, Unk)):
                I.error("TypeError", "cannot assign %r as buffer %r" % (v, name), "attr")
    I.event("attr_write", o, name)
    o.attrs[name] = v


# ------------------------------------------------------------------ torch.nn.Module
MODULE_METHODS = {"to", "cuda", "cpu", "float", "double", "half", "type", "eval", "train", "parameters", "named_parameters", "buffers",
                  "named_buffers", "modules", "named_modules", "children", "named_children", "state_dict", "load_state_dict", "zero_grad",
                  "apply", "register_buffer", "register_parameter", "register_module", "add_module", "requires_grad_", "share_memory",
                  "extra_repr", "get_buffer", "get_parameter", "get_submodule", "__call__", "register_forward_hook", "register_forward_pre_hook",
                  "bfloat16", "to_empty", "compile", "__init__", "register_full_backward_hook", "forward"}


def submodules(o):
    out = []
    if isinstance(o, Obj):
        if not is_module(o):
            return out
        for k, v in o.attrs.items():
            if is_module(v):
                out.append((k, v))
    elif isinstance(o, ExtObj):
        for i, v in enumerate(o.attrs.get("mods", [])):
            if is_module(v):
                out.append((str(i), v))
    return out


def all_modules(o, seen=None):
    seen = [] if seen is None else seen
    if any(x is o for x in seen):
        return seen
    seen.append(o)
    for _, m in submodules(o):
        all_modules(m, seen)
    return seen


def own_tensors(o):
    if isinstance(o, Obj):
        return [(k, o.attrs[k]) for k, kind in o.params.items() if isinstance(o.attrs.get(k), T)]
    return []


def module_to(I, o, dt=None, dev=None):
    for m in all_modules(o):
        if isinstance(m, Obj):
            for k, t in own_tensors(m):
                d = dt if (dt is not None and t.dtype is not None and (t.dtype.kind in "fc")) else None
                if d is not None and t.dtype.kind == "c" and d.kind == "f":
                    d = None
                r = TO.convert(I, t, d, dev)
                if r is not t:
                    r.kind = t.kind
                m.attrs[k] = r
        else:
            if dev is not None:
                m.attrs["device"] = dev
            if dt is not None:
                m.attrs["dtype"] = dt
    return o


def parse_to(I, a, kw):
    dt, dev = kw.get("dtype"), kw.get("device")
    for v in a:
        if isinstance(v, DT):
            dt = v
        elif isinstance(v, T):
            dt, dev = v.dtype, v.device
        elif isinstance(v, (str, tuple, AStr)):
            dev = TO.dev_of(I, v)
    if isinstance(dev, (str, tuple)) or dev is None:
        dev = devname(dev)
    else:
        dev = TO.dev_of(I, dev)
    return dt if isinstance(dt, DT) else None, dev


def devname(d):
    if isinstance(d, tuple) and d[:1] == ("dev",):
        return d[1]
    return d


def module_method(I, o, name):
    if name not in MODULE_METHODS:
        return None

    def b(f):
        return Bi(name, f, o)

    if name == "__init__":
        def init(I_, *a, **k):
            o.attrs["__modinit__"] = True
        return b(init)
    if name == "to":
        def to(I_, *a, **kw):
            dt, dev = parse_to(I_, a, kw)
            return module_to(I_, o, dt, dev)
        return b(to)
    if name == "cpu":
        return b(lambda I_: module_to(I_, o, None, "cpu"))
    if name == "cuda":
        return b(lambda I_, *a: module_to(I_, o, None, "cuda:0"))
    if name in ("float", "double", "half", "bfloat16"):
        return b(lambda I_: module_to(I_, o, {"float": F32, "double": F64, "half": F16, "bfloat16": BF16}[name], None))
    if name == "type":
        return b(lambda I_, d: module_to(I_, o, d if isinstance(d, DT) else None, None))
    if name in ("eval", "train"):
        def train(I_, mode=True):
            val = False if name == "eval" else mode
            for m in all_modules(o):
                m.attrs["training"] = val
            return o
        return b(train)
    if name in ("parameters", "buffers", "named_parameters", "named_buffers"):
        kind = "param" if "param" in name else "buffer"

        def params(I_, recurse=True, prefix="", **k):
            out = []
            for m in (all_modules(o) if recurse is not False else [o]):
                if isinstance(m, Obj):
                    for k2, kd in m.params.items():
                        if kd == kind and isinstance(m.attrs.get(k2), T):
                            out.append((k2, m.attrs[k2]))
                elif kind == "param" and m.cls in PARAM_LAYERS:
                    t = T(None, m.attrs.get("dtype", F32), m.attrs.get("device", "cpu"))
                    t.kind = "param"
                    t.grad = True
                    t.vn = H("lparam", m.vn)
                    t.lo = "unk"
                    t.qst = "unk"
                    out.append(("weight", t))
            return out if "named" in name else [x for _, x in out]
        return b(params)
    if name == "modules":
        return b(lambda I_: all_modules(o))
    if name == "children":
        return b(lambda I_: [m for _, m in submodules(o)])
    if name == "named_children":
        return b(lambda I_: submodules(o))
    if name == "named_modules":
        return b(lambda I_: [(AStr(("modname", i)), m) for i, m in enumerate(all_modules(o))])
    if name == "register_buffer":
        def regbuf(I_, nm, t, persistent=True):
            if not o.attrs.get("__modinit__"):
                I_.error("AttributeError", "cannot assign buffer before Module.__init__() call", "attr")
            if isinstance(nm, str):
                if class_lookup(I_, o.cls, nm) is not None or (nm in o.attrs and nm not in o.params):
                    I_.error("KeyError", "attribute %r already exists" % nm, "attr")
                if isinstance(t, T):
                    t2 = TO.view(I_, t, t.shape)
                    for s in ("vn", "val", "eye", "load", "attrs", "stor"):
                        setattr(t2, s, getattr(t, s))
                    t2.kind = "buffer"
                    t2.attrs = dict(t.attrs or {})
                    o.attrs[nm] = t2
                    o.params[nm] = "buffer"
                else:
                    if t is not None and not isinstance(t, Unk):
                        I_.error("TypeError", "cannot assign %r object to buffer %r" % (t, nm), "attr")
                    o.attrs[nm] = t
                    o.params[nm] = "buffer"
        return b(regbuf)
    if name == "register_parameter":
        def regp(I_, nm, t):
            o.attrs[nm] = t
            o.params[nm] = "param"
        return b(regp)
    if name in ("add_module", "register_module"):
        def addm(I_, nm, m):
            if isinstance(nm, str):
                o.attrs[nm] = m
        return b(addm)
    if name == "state_dict" and I.flags.get("state_objects"):
        return b(lambda I_, *a, **k: ExtObj("state", (("state-of", o),), {}, H("state-of", vnof(o) if not isinstance(o, Obj) else "o%d" % id(o))))
    if name == "state_dict":
        return b(lambda I_, *a, **k: Unk("state_dict"))
    if name == "load_state_dict":
        def lsd(I_, sd, strict=True, assign=False):
            I_.event("load_state_dict", o, sd, strict)
            if I_.flags.get("state_mismatch") and strict is not False:
                I_.error("RuntimeError", "Error(s) in loading state_dict", "state")
            return NT.make((Unk("missing"), Unk("unexpected")), ("missing_keys", "unexpected_keys"), "IncompatibleKeys")
        return b(lsd)
    if name == "forward":
        if isinstance(o, ExtObj):
            return b(lambda I_, *a, **k: layer_call(I_, o, list(a), k))
        return None
    if name == "__call__":
        return b(lambda I_, *a, **k: call(I_, o, list(a), k))
    if name in ("requires_grad_", "share_memory", "compile", "zero_grad"):
        return b(lambda I_, *a, **k: o)
    if name == "apply":
        def app(I_, f):
            for m in all_modules(o):
                I_.call(f, [m], {})
            return o
        return b(app)
    if name in ("get_buffer", "get_parameter", "get_submodule"):
        return b(lambda I_, nm: getattr_(I_, o, nm) if isinstance(nm, str) else Unk(name))
    if name == "extra_repr":
        return b(lambda I_: "")
    return b(lambda I_, *a, **k: Unk("module." + name))


# ------------------------------------------------------------------ layers
def arg(o, i, name, default=None):
    if name in o.kwargs:
        return o.kwargs[name]
    if len(o.args) > i:
        return o.args[i]
    return default


LAYERS = {}
PARAM_LAYERS = {"torch.nn.Linear", "torch.nn.LSTM", "torch.nn.GRU", "torch.nn.Conv1d", "torch.nn.ConvTranspose1d", "torch.nn.BatchNorm1d",
                "torch.nn.Conv2d", "torch.nn.LayerNorm", "torch.nn.GroupNorm"}
LAYER_SIG = {
    "torch.nn.Linear": ("in_features", "out_features", "bias", "device", "dtype"),
    "torch.nn.LSTM": None, "torch.nn.GRU": None,
    "torch.nn.Conv1d": ("in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "bias", "padding_mode", "device", "dtype"),
    "torch.nn.ConvTranspose1d": ("in_channels", "out_channels", "kernel_size", "stride", "padding", "output_padding", "groups", "bias", "dilation", "padding_mode", "device", "dtype"),
    "torch.nn.BatchNorm1d": ("num_features", "eps", "momentum", "affine", "track_running_stats", "device", "dtype"),
    "torch.nn.MaxPool1d": ("kernel_size", "stride", "padding", "dilation", "return_indices", "ceil_mode"),
    "torch.nn.Dropout": ("p", "inplace"),
    "torchaudio.transforms.MelScale": ("n_mels", "sample_rate", "f_min", "f_max", "n_stft", "norm", "mel_scale"),
}


def layer(*names):
    def deco(f):
        for n in names:
            LAYERS[n] = f
        return f
    return deco


def new_layer(I, cls, args, kwargs):
    sig = LAYER_SIG.get(cls)
    if sig is not None:
        if len(args) > len(sig):
            I.error("TypeError", "%s() takes at most %d arguments (%d given)" % (cls, len(sig), len(args)), "signature")
        for k in kwargs:
            if k not in sig and k != "**":
                I.error("TypeError", "%s() got an unexpected keyword argument %r" % (cls, k), "signature")
    o = ExtObj(cls, tuple(args), dict(kwargs))
    o.attrs["device"] = "cpu"
    dt = kwargs.get("dtype")
    o.attrs["dtype"] = dt if isinstance(dt, DT) else I.default_dtype
    o.attrs["training"] = True
    if cls in PARAM_LAYERS:
        I.event("rng", "layer-init")
        I.rand += 1
        o.vn = H(o.vn, "inst", I.rand_key())
    return o


def layer_out(I, o, x, shape, what, params=True, lo=None, mixed=()):
    """result tensor of a layer; mixed: dims of x whose items are combined"""
    t = mk_in(I, x, shape, o.attrs.get("dtype") if params else x.dtype, o if params else None)
    t.vn = H("layer", o.vn, x)
    t.lo = lo or "any"
    at = []
    if x.shape is not None:
        for d in mixed:
            at.extend(x.shape[d].atoms)
    O.note_mix(I, t, at, what)
    if x.shape is not None and any(a.lag for a in at):
        t.lags = t.lags | x.lags
    if is_bad_(x) or x.qst == "unk":
        Q.set_status(t, x.qst)
    elif x.qst == "zero" or Q.neutral(x):
        t.qst = "ok"
        t.qs = ()
    else:
        Q.set_bad(I, t, "%s of a phase-carrying signal" % what)
    if params:
        t.grad = t.grad or not I.nograd
    return t


def is_bad_(x):
    return Q.is_bad(x)


def mk_in(I, x, shape, dt, lay):
    t = O.mk(I, (x,), shape, dt)
    if lay is not None:
        d = lay.attrs.get("device", "cpu")
        if d is not None and x.device is not None and d != x.device:
            I.event("device_mix", d, x.device)
            I.error("RuntimeError", "layer %s on %s applied to a tensor on %s" % (lay.cls, d, x.device), "device")
    return t


def plain_dims(x, keep):
    out = []
    for i, d in enumerate(x.shape):
        out.append(Dim(a.rep(q=(), d=None) for a in d.atoms) if i in keep else None)
    return out


@layer("torch.nn.Linear")
def linear(I, o, x):
    n_in, n_out = arg(o, 0, "in_features"), arg(o, 1, "out_features")
    if x.shape is None:
        return layer_out(I, o, x, None, "Linear")
    check_size(I, x, -1, n_in, "Linear")
    nd = len(x.shape)
    sh = plain_dims(x, set(range(nd - 1)))
    sh[-1] = dim_of(n_out)
    if sh[-1] is None:
        return layer_out(I, o, x, None, "Linear", mixed=(nd - 1,))
    return layer_out(I, o, x, sh, "Linear", mixed=(nd - 1,))


def dim_of(n):
    return Dim.of(n) if intlike(n) else None


def check_size(I, x, d, n, what):
    if intlike(n) and x.shape is not None:
        O.size_must_equal(I, x.shape[d].size, P(n), what)


@layer("torch.nn.LSTM", "torch.nn.GRU")
def lstm(I, o, x, *a):
    n_in, h = arg(o, 0, "input_size"), arg(o, 1, "hidden_size")
    bi = arg(o, 6, "bidirectional", False)
    bf = arg(o, 4, "batch_first", False)
    if x.shape is None:
        r = layer_out(I, o, x, None, "LSTM")
        return (r, Unk("lstm state"))
    nd = len(x.shape)
    if nd not in (2, 3):
        I.error("RuntimeError", "LSTM: Expected input to be 2D or 3D, got %dD" % nd, "shape")
    check_size(I, x, -1, n_in, "LSTM")
    seq = 1 if (bf is True and nd == 3) else 0
    sh = plain_dims(x, set(range(nd - 1)))
    if not intlike(h):
        return (layer_out(I, o, x, None, "LSTM", mixed=(seq, nd - 1)), Unk("lstm state"))
    sh[-1] = Dim.of(lower(P(h) * (2 if bi else 1)))
    r = layer_out(I, o, x, sh, "LSTM", mixed=(seq, nd - 1))
    r.hi = True
    return (r, Unk("lstm state"))


def conv_len(I, L, k, s, p, d):
    n = P(L) + P(p) * 2 - P(d) * (P(k) - 1) - 1
    return I.facts.floordiv(n, P(s)) + 1


def one(v):
    return v[0] if isinstance(v, (tuple, list)) and len(v) == 1 else v


@layer("torch.nn.Conv1d", "torch.nn.ConvTranspose1d")
def conv1d(I, o, x):
    tr = o.cls.endswith("ConvTranspose1d")
    n_in, n_out, k = arg(o, 0, "in_channels"), arg(o, 1, "out_channels"), one(arg(o, 2, "kernel_size"))
    s, p = one(arg(o, 3, "stride", 1)), one(arg(o, 4, "padding", 0))
    if tr:
        op, d = one(arg(o, 5, "output_padding", 0)), one(arg(o, 8, "dilation", 1))
    else:
        op, d = 0, one(arg(o, 5, "dilation", 1))
    if x.shape is None or not all(intlike(v) for v in (n_out, k, s, op, d)) or not (intlike(p) or p == "same"):
        return layer_out(I, o, x, None, "Conv1d")
    nd = len(x.shape)
    if nd not in (2, 3):
        I.error("RuntimeError", "%s: Expected 2D or 3D input, got %dD" % (o.cls, nd), "shape")
    check_size(I, x, -2, n_in, "Conv1d")
    L = x.shape[-1].size
    sh = plain_dims(x, set(range(nd - 2)))
    sh[-2] = Dim.of(n_out)
    if tr:
        Lo = (P(L) - 1) * P(s) - P(p) * 2 + P(d) * (P(k) - 1) + P(op) + 1
    elif p == "same":
        Lo = P(L)
    else:
        Lo = conv_len(I, L, k, s, p, d)
    if P(Lo) == P(L):
        sh[-1] = Dim(a.rep(q=(), d=None) for a in x.shape[-1].atoms)
    else:
        sh[-1] = Dim.of(lower(P(Lo)))
    mixed = (nd - 2, nd - 1) if lower(P(k)) != 1 else (nd - 2,)
    return layer_out(I, o, x, sh, "Conv1d", mixed=mixed)


@layer("torch.nn.BatchNorm1d")
def batchnorm(I, o, x):
    if x.shape is None:
        return layer_out(I, o, x, None, "BatchNorm")
    nd = len(x.shape)
    if nd not in (2, 3):
        I.error("ValueError", "BatchNorm1d expected 2D or 3D input, got %dD" % nd, "shape")
    check_size(I, x, 1, arg(o, 0, "num_features"), "BatchNorm1d")
    mixed = ()
    if o.attrs.get("training", True) is True:
        mixed = (0,) + ((2,) if nd == 3 else ())
    return layer_out(I, o, x, plain_dims(x, set(range(nd))), "BatchNorm1d", mixed=mixed)


@layer("torch.nn.LayerNorm", "torch.nn.GroupNorm")
def layernorm(I, o, x):
    if x.shape is None:
        return layer_out(I, o, x, None, "LayerNorm")
    ns = arg(o, 0, "normalized_shape")
    k = len(ns) if isinstance(ns, (tuple, list)) else 1
    nd = len(x.shape)
    return layer_out(I, o, x, plain_dims(x, set(range(nd))), "LayerNorm", mixed=tuple(range(nd - k, nd)))


@layer("torch.nn.MaxPool1d", "torch.nn.AvgPool1d")
def maxpool(I, o, x):
    k = one(arg(o, 0, "kernel_size"))
    s = one(arg(o, 1, "stride", None))
    s = k if s is None else s
    p = one(arg(o, 2, "padding", 0))
    if x.shape is None or not all(intlike(v) for v in (k, s, p)):
        return layer_out(I, o, x, None, "MaxPool1d", params=False)
    nd = len(x.shape)
    if nd not in (2, 3):
        I.error("RuntimeError", "MaxPool1d: Expected 2D or 3D input, got %dD" % nd, "shape")
    sh = plain_dims(x, set(range(nd - 1)))
    sh[-1] = Dim.of(lower(conv_len(I, x.shape[-1].size, k, s, p, 1)))
    r = layer_out(I, o, x, sh, "MaxPool1d", params=False, lo=x.lo, mixed=(nd - 1,))
    r.hi = bool(x.hi)
    return r


@layer("torchaudio.transforms.MelScale")
def melscale(I, o, x):
    n_mels = arg(o, 0, "n_mels", 128)
    n_stft = arg(o, 4, "n_stft", 201)
    if x.shape is None or not intlike(n_mels):
        return layer_out(I, o, x, None, "MelScale", params=False)
    check_size(I, x, -2, n_stft, "MelScale")
    nd = len(x.shape)
    sh = plain_dims(x, set(range(nd)) - {nd - 2})
    sh[-2] = Dim.of(n_mels)
    d = o.attrs.get("device", "cpu")
    if d is not None and x.device is not None and d != x.device:
        I.event("device_mix", d, x.device)
        I.error("RuntimeError", "MelScale on %s applied to a tensor on %s" % (d, x.device), "device")
    if x.dtype is not None and x.dtype.kind == "c":
        I.error("RuntimeError", "MelScale applied to a complex tensor", "shape")
    lo = "ge0" if x.lo in ("ge0", "gt0", "gtc") else ("unk" if x.lo == "unk" else "any")
    r = layer_out(I, o, x, sh, "MelScale", params=False, lo=lo, mixed=(nd - 2,))
    if x.qst == "zero":
        Q.set_status(r, "zero")
    return r


@layer("torch.nn.Dropout", "torch.nn.Identity", "torch.nn.AlphaDropout")
def dropout(I, o, x):
    if o.cls != "torch.nn.Identity" and o.attrs.get("training", True) is not False:
        I.event("rng", "dropout")
    return x


def act(name):
    def f(I, o, x):
        return TO.call_op(I, name, [x], {})
    return f


for _n, _o in (("ReLU", "relu"), ("Sigmoid", "sigmoid"), ("Tanh", "tanh"), ("Softplus", "softplus"), ("LeakyReLU", "relu"), ("GELU", "relu"),
               ("ELU", "relu"), ("PReLU", "relu")):
    LAYERS["torch.nn." + _n] = act(_o)


def layer_call(I, o, args, kwargs):
    if o.cls in ("torch.nn.Sequential",):
        x = args[0]
        for m in o.attrs["mods"]:
            x = I.call(m, [x], {})
        return x
    if o.cls == "torch.nn.ModuleList":
        I.error("NotImplementedError", "ModuleList is not callable", "attr")
    f = LAYERS[o.cls]
    x = args[0] if args else kwargs.get("input", Unk("no input"))
    if not isinstance(x, T):
        u = Unk("layer input", H("layer", o.vn, x))
        return (u, Unk("state")) if o.cls in ("torch.nn.LSTM", "torch.nn.GRU") else u
    I.opcount += 1
    return f(I, o, x)


# ------------------------------------------------------------------ tensors
TENSOR_PLAIN = {"is_cuda", "is_leaf", "grad_fn", "layout", "is_sparse", "is_quantized", "is_meta", "names", "version", "_version", "itemsize", "nbytes", "output_nr"}


def tensor_attr(I, x, name):
    if name == "shape":
        s = x.sizes()
        if s is None:
            return Unk("shape", H("shape", x.vn))
        return Size(s)
    if name == "ndim":
        return Unk("ndim", H("ndim", x.vn)) if x.shape is None else len(x.shape)
    if name == "dtype":
        return x.dtype if x.dtype is not None else Unk("dtype", H("dtype", x.vn))
    if name == "device":
        return ("dev", x.device) if x.device is not None else Unk("device", H("device", x.vn))
    if name == "T":
        if x.kind == "ndarray" or x.shape is None or len(x.shape) != 2:
            return TO.call_op(I, "permute", [x] + list(range(len(x.shape)))[::-1], {}) if x.shape is not None else Unk("T")
        return TO.call_op(I, "t", [x], {})
    if name in ("mT", "H", "mH"):
        return TO.call_op(I, name, [x], {})
    if name in ("real", "imag"):
        return TO.call_op(I, name, [x], {})
    if name == "data":
        return TO.call_op(I, "detach", [x], {})
    if name == "requires_grad":
        return BCond(H("requires_grad", x.vn))
    if name == "grad":
        return Unk("grad")
    if name in TENSOR_PLAIN:
        return BCond(H(name, x.vn)) if name.startswith("is_") else Unk(name)
    if name == "is_cuda":
        return BCond(H("is_cuda", x.vn))
    if name == "size" and x.kind == "ndarray":
        return TO.call_op(I, "numel", [x], {})
    if name.endswith("_") and not name.startswith("_") and (name[:-1] in TO.OPS or name[:-1] in ("fill", "zero", "copy", "uniform", "normal", "random", "exponential", "requires_grad", "share_memory")):
        return Bi(name, lambda I_, *a, **k: TO.call_inplace(I_, name, [x] + list(a), k), x)
    if name == "astype":
        return Bi(name, lambda I_, *a, **k: TO.call_op(I_, "to", [x] + list(a), k), x)
    if name in ("float", "double", "half", "int", "long", "bool", "cfloat", "cdouble", "short", "bfloat16"):
        dt = {"float": F32, "double": F64, "half": F16, "int": I32, "long": I64, "bool": BOOL, "cfloat": C64, "cdouble": C128, "short": I16, "bfloat16": BF16}[name]
        return Bi(name, lambda I_, *a, **k: TO.convert(I_, x, dt), x)
    if name == "new_tensor":
        return Bi(name, lambda I_, v, dtype=None, device=None, **k: TO.call_op(I_, "tensor", [v], {"dtype": dtype or x.dtype, "device": device or ("dev", x.device)}), x)
    if name == "T":
        return TO.call_op(I, "t", [x], {})
    if name in TO.OPS:
        return Bi(name, lambda I_, *a, **k: TO.call_op(I_, name, [x] + list(a), k), x)
    if name == "copy" and x.kind == "ndarray":
        return Bi(name, lambda I_, *a, **k: TO.call_op(I_, "clone", [x], {}), x)
    if x.attrs and name in x.attrs and name != "py":
        return x.attrs[name]
    mem = MEMBERS.get("torch.Tensor")
    if mem and name not in mem and x.kind in ("tensor", "param", "buffer"):
        I.error("AttributeError", "'Tensor' object has no attribute %r" % name, "attr")
    I.note_unmodelled("Tensor." + name)
    return Bi(name, lambda I_, *a, **k: O.unk_from(I_, name, [x] + list(a) + list(k.values())), x)


# ------------------------------------------------------------------ external names
CONSTS = {"math.pi": math.pi, "math.inf": math.inf, "math.e": math.e, "math.nan": math.nan, "numpy.pi": math.pi, "torch.pi": math.pi,
          "torch.inf": math.inf, "numpy.inf": math.inf, "torch.nan": math.nan, "math.tau": math.tau, "os.sep": "/", "typing.TYPE_CHECKING": False,
          "numpy.newaxis": None}


def ext_attr(I, v, name):
    full = v.name + "." + name
    full = canon(full)
    if full in CONSTS:
        return CONSTS[full]
    base, last = full.rsplit(".", 1)
    if base in ("torch", "numpy"):
        nm = DTALIAS.get(last, last) if base == "torch" else {"float32": "float32", "float64": "float64", "complex64": "complex64", "complex128": "complex128"}.get(last)
        if nm in DT.ALL and last not in ("bool_",):
            return DT.ALL[nm]
    if base == "os" and last == "environ":
        return ExtObj("os.environ")
    if base in MEMBERS and last not in MEMBERS[base] and full not in I.prog.trees:
        I.error("AttributeError", "module %r has no attribute %r" % (base, last), "attr")
    return Ext(full)


CANON = {"torch.functional.": "torch.", "torch.nn.modules.": "torch.nn."}


def canon(n):
    for a, b in CANON.items():
        if n.startswith(a):
            n = b + n[len(a):]
    if n.startswith("numpy.linalg.") or n.startswith("torch.linalg."):
        return n
    if n.startswith("torch.nn.parameter."):
        n = "torch.nn." + n[len("torch.nn.parameter."):]
    if n.startswith("typing_extensions."):
        n = "typing." + n[len("typing_extensions."):]
    return n


def ext_list(I, v):
    if v.cls in ("torch.nn.ModuleList", "torch.nn.Sequential"):
        return list(v.attrs["mods"])
    if v.cls == "iter":
        return I.to_list(v.attrs["src"])
    if v.cls == "lazy":
        return I.to_list(v.attrs["src"])
    return None


def ext_iter(I, v):
    if v.cls in ("iter", "lazy"):
        return I.sym_iter(v.attrs["src"])
    return None


def extobj_attr(I, v, name):
    if is_module(v):
        if name == "training":
            return v.attrs.get("training", True)
        if name in ("append", "extend", "insert") and v.cls == "torch.nn.ModuleList":
            def app(I_, m):
                if name == "append":
                    v.attrs["mods"].append(m)
                else:
                    v.attrs["mods"].extend(I_.to_list(m))
                return v
            return Bi(name, app, v)
        if name in v.kwargs:
            return v.kwargs[name]
        if v.cls in LAYER_SIG and LAYER_SIG[v.cls] and name in LAYER_SIG[v.cls]:
            i = LAYER_SIG[v.cls].index(name)
            if i < len(v.args):
                return v.args[i]
        m = module_method(I, v, name)
        if m is not None:
            return m
        if name in ("weight", "bias", "fb", "running_mean", "running_var"):
            t = T(None, v.attrs.get("dtype", F32), v.attrs.get("device", "cpu"))
            t.kind, t.vn, t.lo, t.qst = "param", H("layerattr", v.vn, name), "unk", "unk"
            return t
        return Unk("layer attr " + name)
    if v.cls == "argparse.Namespace":
        if name in v.attrs:
            return v.attrs[name]
        I.error("AttributeError", "'Namespace' object has no attribute %r" % name, "attr")
    if name in v.attrs:
        return v.attrs[name]
    if v.cls.startswith("argparse."):
        return Bi(name, lambda I_, *a, **k: V.argparse_method(I_, v, name, list(a), k), v)
    if v.cls in ("file", "url_response", "tempfile"):
        return V.file_attr(I, v, name)
    if v.cls == "os.environ":
        def env(I_, *a, **k):
            if name in ("setdefault", "update", "pop", "clear", "__setitem__"):
                I_.event("global_effect", "os.environ.%s" % name)
            return AStr(("env",) + tuple(x for x in a if isinstance(x, str)))
        return Bi(name, env, v)
    if v.cls == "hash":
        if name in ("hexdigest", "digest"):
            if isinstance(v.attrs.get("data"), bytes):
                h = hashlib.new(v.attrs["alg"], v.attrs["data"])
                return Bi(name, lambda I_, *a: getattr(h, name)())
            return Bi(name, lambda I_, *a: AStr(("digest", v.vn)))
        if name == "update":
            def up(I_, d):
                if isinstance(d, bytes) and isinstance(v.attrs.get("data"), bytes):
                    v.attrs["data"] += d
                else:
                    v.attrs["data"] = None
            return Bi(name, up)
    if v.cls.split(".")[-1] in EXC:
        return Unk("exception attr") if name != "args" else tuple(v.args)
    return Unk("%s.%s" % (v.cls, name), H("eattr", v.vn, name))


# ------------------------------------------------------------------ python objects
def py_attr(I, v, name):
    if isinstance(v, Size):
        if name == "numel":
            def numel(I_):
                p = P(1)
                for x in v:
                    if not intlike(x):
                        return Unk("numel")
                    p = p * P(x)
                return lower(p)
            return Bi(name, numel, v)
    if isinstance(v, list):
        if name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "index", "count", "copy", "clear"):
            return Bi(name, lambda I_, *a, **k: list_method(I_, v, name, a, k), v)
    elif isinstance(v, tuple):
        if name == "index":
            def index(I_, x):
                for i, y in enumerate(v):
                    if I_.truth(compare(I_, "==", y, x)):
                        return i
                I_.error("ValueError", "not in tuple", "value")
            return Bi(name, index, v)
        if name == "count":
            return Bi(name, lambda I_, x: sum(1 for y in v if I_.same(x, y)), v)
    elif isinstance(v, dict):
        if hasattr(dict, name):
            return Bi(name, lambda I_, *a, **k: dict_method(I_, v, name, a, k), v)
    elif isinstance(v, (set, frozenset)):
        if hasattr(v, name):
            def setm(I_, *a):
                try:
                    return getattr(v, name)(*a)
                except TypeError:
                    return Unk("set method")
            return Bi(name, setm, v)
    elif isinstance(v, (str, bytes)):
        if hasattr(v, name):
            def strm(I_, *a, **k):
                if all(concrete(x) for x in a) and all(concrete(x) for x in k.values()):
                    try:
                        return getattr(v, name)(*a, **k)
                    except (TypeError, ValueError, LookupError) as e:
                        I_.error(type(e).__name__, str(e), "value")
                if name == "join" and a:
                    l = I_.to_list(a[0])
                    if l is not None and all(isinstance(x, (str, V.PathV)) for x in l):
                        return v.join([str(x) for x in l])
                    return AStr(("join", v, H(a[0])))
                if name == "format":
                    return AStr(("format", v, H(list(a), k)))
                if name in ("startswith", "endswith"):
                    return BCond(H(name, v, list(a)))
                return AStr((name, v, H(list(a))))
            return Bi(name, strm, v)
    elif isinstance(v, (int, float, complex)):
        if name in ("real", "imag"):
            return getattr(v, name)
        if name in ("conjugate", "is_integer", "bit_length", "as_integer_ratio", "hex"):
            return Bi(name, lambda I_: getattr(v, name)(), v)
    elif isinstance(v, Poly):
        if name == "bit_length":
            def bl(I_):
                return I_.facts.bit_length(v)
            return Bi(name, bl, v)
        if name == "real":
            return v
        if name in ("is_integer",):
            return Bi(name, lambda I_: True)
    elif isinstance(v, Flt):
        if name in ("item", "clone", "detach", "is_integer", "real"):
            if name == "real":
                return v
            return Bi(name, lambda I_, *a: v if name != "is_integer" else BCond(H("isint", v.vn)), v)
    elif isinstance(v, RangeV):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
    I.error("AttributeError", "%r object has no attribute %r" % (type_name(v), name), "attr")


def type_name(v):
    if isinstance(v, Poly):
        return "int"
    if isinstance(v, Flt):
        return "float"
    if isinstance(v, RangeV):
        return "range"
    return type(v).__name__


def list_method(I, v, name, a, k):
    if name == "append":
        v.append(a[0])
    elif name == "extend":
        l = I.to_list(a[0])
        if l is None:
            if isinstance(a[0], (list, tuple)):
                v.extend(a[0])
            else:
                elem, n = I.sym_iter(a[0])
                v.append(SymRep(elem(P(0)), n))
        else:
            v.extend(l)
    elif name == "insert":
        if isinstance(a[0], int):
            v.insert(a[0], a[1])
    elif name == "pop":
        if any(isinstance(x, SymRep) for x in v):
            return v[-1].elem if isinstance(v[-1], SymRep) else v.pop()
        if not v:
            I.error("IndexError", "pop from empty list", "value")
        i = a[0] if a else -1
        if isinstance(i, int):
            return v.pop(i)
        return Unk("pop")
    elif name == "copy":
        return list(v)
    elif name == "clear":
        v.clear()
    elif name == "reverse":
        v.reverse()
    elif name == "index":
        for i, y in enumerate(v):
            if I.same(y, a[0]):
                return i
        if all(concrete(y) for y in v) and concrete(a[0]):
            I.error("ValueError", "%r is not in list" % (a[0],), "value")
        return Unk("index")
    elif name == "count":
        return sum(1 for y in v if I.same(y, a[0]))
    elif name == "remove":
        for i, y in enumerate(v):
            if I.same(y, a[0]):
                del v[i]
                return
    elif name == "sort":
        try:
            v.sort(**{kk: vv for kk, vv in k.items() if kk == "reverse"})
        except TypeError:
            pass
    return None


def dict_method(I, v, name, a, k):
    if name == "keys":
        return list(v.keys())
    if name == "values":
        return list(v.values())
    if name == "items":
        return [(kk, vv) for kk, vv in v.items()]
    if name == "get":
        if isinstance(a[0], (Unk, AStr)):
            return Unk("dict get", H("dget", v, a[0]))
        try:
            return v.get(a[0], a[1] if len(a) > 1 else k.get("default"))
        except TypeError:
            return Unk("dict get")
    if name == "update":
        if a:
            if isinstance(a[0], dict):
                v.update(a[0])
            else:
                l = I.to_list(a[0])
                for x in l or []:
                    kk, vv = I.to_list(x)
                    v[kk] = vv
        v.update(k)
        return None
    if name == "pop":
        if a[0] in v:
            return v.pop(a[0])
        if len(a) > 1:
            return a[1]
        I.error("KeyError", repr(a[0]), "key")
    if name == "setdefault":
        return v.setdefault(a[0], a[1] if len(a) > 1 else None)
    if name == "copy":
        return dict(v)
    if name == "clear":
        v.clear()
        return None
    if name == "popitem":
        return v.popitem()
    if name == "fromkeys":
        return dict.fromkeys(a[0], *a[1:])
    return Unk("dict." + name)


def astr_attr(I, v, name):
    def f(I_, *a, **k):
        if name in ("startswith", "endswith", "isnumeric", "isdigit", "isalpha", "islower", "isupper", "isalnum"):
            return BCond(H(name, v.vn, list(a)))
        if name in ("split", "rsplit", "splitlines"):
            return Unk("split", H(name, v.vn, list(a)))
        if name in ("find", "rfind", "index", "count"):
            return Unk("int", H(name, v.vn, list(a)))
        return AStr((name, v.vn, H(list(a), k)))
    if hasattr(str, name):
        return Bi(name, f, v)
    return Unk("str attr", H("sattr", v.vn, name))


# ------------------------------------------------------------------ items
def getitem(I, o, k):
    if isinstance(o, T):
        r = O.getitem(I, o, k)
        if isinstance(r, T) and r.vn is None:
            r.vn = H("getitem", o, k)
        return r
    if isinstance(o, (list, tuple)):
        return seq_item(I, o, k)
    if isinstance(o, dict):
        if isinstance(k, (Unk, AStr)):
            if len(o) and all(isinstance(v, T) for v in o.values()):
                return Unk("dict item", H("ditem", o, k))
            return Unk("dict item", H("ditem", o, k))
        try:
            if k in o:
                return o[k]
        except TypeError:
            return Unk("dict key")
        I.error("KeyError", repr(k), "key")
    if isinstance(o, str):
        if isinstance(k, int) or isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            try:
                return o[k]
            except IndexError:
                I.error("IndexError", "string index out of range", "value")
        return AStr(("sub", o, H(k)))
    if isinstance(o, Cls):
        if o.ns.get("__enum__") is not None:
            if isinstance(k, str):
                if k in o.ns["__enum__"]:
                    return o.ns["__enum__"][k]
                I.error("KeyError", k, "key")
            return Unk("enum item")
        return o
    if isinstance(o, Ext):
        return o
    if isinstance(o, ExtObj):
        if o.cls in ("torch.nn.ModuleList", "torch.nn.Sequential"):
            return seq_item(I, o.attrs["mods"], k)
        if o.cls == "os.environ":
            return AStr(("env", H(k)))
        return Unk("item", H("eitem", o.vn, k))
    if isinstance(o, RangeV):
        if isinstance(k, int):
            l = I.to_list(o)
            if l is not None:
                try:
                    return l[k]
                except IndexError:
                    I.error("IndexError", "range index", "value")
            if k >= 0:
                return lower(P(o.start) + P(o.step) * k)
        return Unk("range item")
    if isinstance(o, Obj):
        f = class_lookup(I, o.cls, "__getitem__")
        if f is not None:
            return I.call(BM(o, f), [k], {})
        if open_bases(o.cls) or is_module(o):
            return Unk("item")
        I.error("TypeError", "%s object is not subscriptable" % o.cls.name, "signature")
    if isinstance(o, Unk):
        return I.derive_unk(o, "[%s]" % H(k))
    if isinstance(o, AStr):
        return AStr(("sub", o.vn, H(k)))
    if o is None or isinstance(o, (bool, int, float, Poly, Flt)):
        I.error("TypeError", "%r object is not subscriptable" % type_name(o), "signature")
    return Unk("item", H("item", o, k))


def seq_item(I, o, k):
    hasrep = any(isinstance(x, SymRep) for x in o)
    if isinstance(k, bool):
        k = int(k)
    if isinstance(k, Poly):
        k2 = lower(k)
        k = k2
    if isinstance(k, slice):
        parts = [lower(x) if isinstance(x, Poly) else x for x in (k.start, k.stop, k.step)]
        if hasrep:
            if parts == [None, None, None]:
                return type(o)(o) if type(o) in (list, tuple) else list(o)
            if all(x is None or isinstance(x, int) for x in parts) and parts[2] is None:
                return rep_slice(I, o, parts[0], parts[1])
            return [Unk("slice")]
        if all(x is None or isinstance(x, int) for x in parts):
            r = list(o)[slice(*parts)]
            if isinstance(o, Size):
                return Size(r)
            return r if isinstance(o, list) else tuple(r)
        if isinstance(o, list) and o and all(x is o[0] or I.same(x, o[0]) for x in o):
            return [Unk("slice")]
        return Unk("slice", H("slice", o, k))
    if isinstance(k, int):
        if hasrep:
            # walk from the matching end
            seq = list(o) if k >= 0 else list(o)[::-1]
            j = k if k >= 0 else -k - 1
            for x in seq:
                if isinstance(x, SymRep):
                    return x.elem
                if j == 0:
                    return x
                j -= 1
            I.error("IndexError", "list index out of range", "value")
        try:
            return o[k]
        except IndexError:
            I.error("IndexError", "%s index %d out of range (length %d)" % (type(o).__name__, k, len(o)), "value")
    if isinstance(k, Poly):
        if hasrep and len(o) == 1:
            return o[0].elem
        el = None
        for x in o:
            e = x.elem if isinstance(x, SymRep) else x
            el = e if el is None else I.join(el, e)
        return el if el is not None else Unk("item")
    return Unk("item", H("item", o, k))


def rep_slice(I, o, a, b):
    out = list(o)
    if b is not None:
        if b < 0:
            for _ in range(-b):
                if isinstance(out[-1], SymRep):
                    r = out[-1]
                    out[-1] = SymRep(r.elem, r.n - 1)
                else:
                    out.pop()
        else:
            return [Unk("slice")]
    if a is not None:
        if a >= 0:
            for _ in range(a):
                if isinstance(out[0], SymRep):
                    r = out[0]
                    out[0] = SymRep(r.elem, r.n - 1)
                else:
                    out.pop(0)
        else:
            return [Unk("slice")]
    return out


def setitem(I, o, k, v):
    if isinstance(o, T):
        return O.setitem(I, o, k, v)
    if isinstance(o, list):
        if isinstance(k, Poly):
            k = lower(k)
        if isinstance(k, int) and not any(isinstance(x, SymRep) for x in o):
            try:
                o[k] = v
            except IndexError:
                I.error("IndexError", "list assignment index out of range", "value")
        else:
            for i, x in enumerate(o):
                o[i] = SymRep(I.join(x.elem, v), x.n) if isinstance(x, SymRep) else I.join(x, v)
        return
    if isinstance(o, dict):
        try:
            o[k] = v
        except TypeError:
            pass
        return
    if isinstance(o, ExtObj):
        if o.cls == "os.environ":
            I.event("global_effect", "os.environ[...] =")
        if o.cls in ("torch.nn.ModuleList", "torch.nn.Sequential") and isinstance(k, int):
            o.attrs["mods"][k] = v
        return
    if isinstance(o, Obj):
        f = class_lookup(I, o.cls, "__setitem__")
        if f is not None:
            I.call(BM(o, f), [k, v], {})
        return
    if isinstance(o, tuple):
        I.error("TypeError", "tuple does not support item assignment", "signature")
    if isinstance(o, Unk) and o.stor:
        I.event("write_caller", frozenset(o.stor))


# ------------------------------------------------------------------ operators
PYOP = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
        "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b, "LShift": lambda a, b: a << b,
        "RShift": lambda a, b: a >> b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b}


def binop(I, op, a, b):
    if isinstance(a, T) or isinstance(b, T):
        if isinstance(a, Unk) or isinstance(b, Unk):
            if op == "MatMult":
                return O.unk_from(I, op, (a, b))
        if isinstance(a, (T, int, float, complex, Poly, Flt, Unk)) and isinstance(b, (T, int, float, complex, Poly, Flt, Unk)):
            return O.binop(I, op, a, b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return O.unk_from(I, op, (a, b))
        if a is None or b is None or isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
            I.error("TypeError", "unsupported operand types for %s: %r and %r" % (op, tname(a), tname(b)), "signature")
        return O.unk_from(I, op, (a, b))
    if isinstance(a, V.PathV) or isinstance(b, V.PathV):
        if op == "Div":
            return V.path_join(I, a, b)
        return Unk("path op")
    if isinstance(a, Unk) or isinstance(b, Unk):
        u = Unk("op", H(op, a, b))
        for x in (a, b):
            if isinstance(x, (Unk, Flt)):
                u.data = u.data or x.data
                u.mix = u.mix | x.mix
                u.sev = {**u.sev, **x.sev}
        return u
    if isinstance(a, NUM) and isinstance(b, NUM):
        try:
            return PYOP[op](a, b)
        except ZeroDivisionError:
            I.error("ZeroDivisionError", "division by zero", "value")
        except Exception:
            return Unk("arith")
    if isinstance(a, TO.Stride) or isinstance(b, TO.Stride):
        return Unk("stride arith", H(op, a, b))
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        return int_op(I, op, P(a), P(b))
    if isinstance(a, (Flt, float, int, Poly, complex)) and isinstance(b, (Flt, float, int, Poly, complex)):
        return flt_op(I, op, a, b)
    if isinstance(a, (str, AStr)) or isinstance(b, (str, AStr)):
        if op == "Mod" and isinstance(a, str):
            if concrete(b):
                try:
                    return a % b
                except TypeError:
                    pass
            return AStr(("fmt", a, H(b)))
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
                return AStr(("cat", vnof(a), vnof(b)))
            I.error("TypeError", "can only concatenate str (not %r) to str" % tname(b if isinstance(a, (str, AStr)) else a), "signature")
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        return AStr((op, vnof(a), vnof(b)))
    if op == "Add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            I.error("TypeError", "can only concatenate %s (not %s) to %s" % (
                "list" if isinstance(a, list) else "tuple", tname(b), "list" if isinstance(a, list) else "tuple"), "signature")
        r = list(a) + list(b)
        if isinstance(a, list):
            return r
        return Size(r) if isinstance(a, Size) else tuple(r)
    if op == "Mult" and isinstance(b, (list, tuple)):
        a, b = b, a
    if op == "Mult" and isinstance(a, (list, tuple)) and isinstance(b, (int, Poly)):
        n = lower(P(b))
        if isinstance(n, int):
            r = list(a) * n
        elif len(a) == 1 and not isinstance(a[0], SymRep):
            r = [SymRep(a[0], n)]
        else:
            r = [Unk("list repetition")]
        return r if isinstance(a, list) else tuple(r)
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        return {**a, **b}
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        try:
            return PYOP[op](a, b)
        except Exception:
            return Unk("set op")
    if isinstance(a, (bool, Cond, BCond)) and isinstance(b, (bool, Cond, BCond)) and op in ("BitAnd", "BitOr", "BitXor"):
        ta, tb = I.truth(a), I.truth(b)
        return PYOP[op](ta, tb)
    if isinstance(a, (Cond, BCond)) and isinstance(b, (int, float, Poly, Flt, bool)) or isinstance(b, (Cond, BCond)) and isinstance(a, (int, float, Poly, Flt, bool)):
        a = int(I.truth(a)) if isinstance(a, (Cond, BCond)) else a
        b = int(I.truth(b)) if isinstance(b, (Cond, BCond)) else b
        return binop(I, op, a, b)
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Obj):
            nm = pre + {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod"}.get(op, "x") + "__"
            f = class_lookup(I, x.cls, nm)
            if f is not None:
                return I.call(BM(x, f), [y], {})
    if isinstance(a, (Ext, Cls)) or isinstance(b, (Ext, Cls)):
        return Unk("type union") if op == "BitOr" else Unk("op")
    if a is None or b is None:
        I.error("TypeError", "unsupported operand types for %s: %r and %r" % (op, tname(a), tname(b)), "signature")
    if isinstance(a, (list, tuple, dict)) and isinstance(b, (int, float, Poly, Flt, str, dict)) or isinstance(b, (list, tuple, dict)) and isinstance(a, (int, float, Poly, Flt, str, dict)):
        I.error("TypeError", "unsupported operand types for %s: %r and %r" % (op, tname(a), tname(b)), "signature")
    return Unk("op", H(op, a, b))


def tname(v):
    if isinstance(v, T):
        return "Tensor"
    if v is None:
        return "NoneType"
    return type_name(v)


def int_op(I, op, a, b):
    if op == "Add":
        return lower(a + b)
    if op == "Sub":
        return lower(a - b)
    if op == "Mult":
        return lower(a * b)
    if op == "FloorDiv":
        if b.is_const() and b.const() == 0:
            I.error("ZeroDivisionError", "division by zero", "value")
        return lower(P(I.facts.floordiv(a, b)))
    if op == "Mod":
        return lower(P(I.facts.mod(a, b)))
    if op == "Div":
        return flt_op(I, op, lower(a), lower(b))
    if op == "Pow":
        n = lower(b)
        if isinstance(n, int) and 0 <= n <= 6:
            p = P(1)
            for _ in range(n):
                p = p * a
            return lower(p)
        r = I.facts.power(a, b)
        return lower(r) if r is not None else Unk("pow")
    if op in ("LShift",):
        n = lower(b)
        if isinstance(n, int):
            return lower(a * (1 << n))
        r = I.facts.power(P(2), b)
        if r is not None:
            return lower(a * r)
    if op == "RShift":
        n = lower(b)
        if isinstance(n, int):
            return lower(P(I.facts.floordiv(a, P(1 << n))))
    return Unk("int op", H(op, a, b))


def flt_op(I, op, a, b):
    la, lb = O.scal_lo(I, a), O.scal_lo(I, b)
    lo = "unk"
    if op == "Add":
        lo = O.lo_add(la, lb)
    elif op == "Mult":
        lo = O.lo_mul(la, lb)
    elif op == "Div":
        if scal0(b):
            I.error("ZeroDivisionError", "division by zero", "value")
        lo = O.lo_mul(la, lb)
    elif op == "Sub":
        lo = "any"
        if isinstance(a, (int, float)) and a == 0 and lb in ("gt0", "gtc", "nz"):
            lo = "nz"
    elif op == "Pow":
        lo = la if la in ("ge0", "gt0", "gtc") else "any"
        lo = "gt0" if lo == "gtc" else lo
    r = Flt(H(op, a, b), lo, True, False)
    for x in (a, b):
        if isinstance(x, Flt):
            r.data = r.data or x.data
            r.sev = {**r.sev, **x.sev}
            r.mix = r.mix | x.mix
            r.nan = r.nan | x.nan
            r.hi = bool(r.hi and x.hi)
    return r


def scal0(v):
    return isinstance(v, (int, float, complex)) and v == 0 or isinstance(v, Poly) and v.is_const() and v.const() == 0


def compare(I, op, a, b):
    if op in ("is", "is not"):
        r = is_same(I, a, b)
        if isinstance(r, bool):
            return r if op == "is" else not r
        return r if op == "is" else r.neg()
    if op in ("in", "not in"):
        r = contains(I, a, b)
        if isinstance(r, (bool, int)):
            return bool(r) if op == "in" else not r
        return r if op == "in" else r.neg()
    if isinstance(a, T) or isinstance(b, T):
        if op in ("==", "!=") and (a is None or b is None or isinstance(a, (str, DT)) or isinstance(b, (str, DT))):
            return op == "!="
        return O.compare(I, op, a, b)
    if isinstance(a, Unk) or isinstance(b, Unk):
        c = BCond(H("cmp", op, a, b))
        for x in (a, b):
            if isinstance(x, (Unk, Flt)):
                c.mix = c.mix | x.mix
                c.data = c.data or x.data
        if op in ("!=",):
            c = BCond(H("cmp", "==", a, b), c.mix, c.data).neg()
        return c
    if isinstance(a, (bool,)) and isinstance(b, (bool,)) or (isinstance(a, NUM) and isinstance(b, NUM)):
        try:
            return {"==": a == b, "!=": a != b}[op] if op in ("==", "!=") else {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()
        except TypeError:
            I.error("TypeError", "comparison", "signature")
    if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
        r = I.facts.cmp(op, P(a), P(b))
        return r if r is not None else Cond(op, a, b)
    if isinstance(a, (int, float, Poly, Flt)) and isinstance(b, (int, float, Poly, Flt)):
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if isinstance(x, Flt) and scal0(y):
                if x.lo in ("gt0", "gtc"):
                    return o in (">", ">=", "!=")
                if x.lo == "ge0" and o in (">=", "<"):
                    return o == ">="
                if x.lo == "nz" and o in ("==", "!="):
                    return o == "!="
        c = BCond(H("cmp", op, a, b))
        for x in (a, b):
            if isinstance(x, Flt):
                c.mix, c.data, c.sev = c.mix | x.mix, c.data or x.data, {**c.sev, **x.sev}
        return c
    if op in ("==", "!="):
        r = equal(I, a, b)
        if isinstance(r, bool):
            return r if op == "==" else not r
        return r if op == "==" else r.neg()
    # ordering of other things
    if isinstance(a, (str, tuple, list)) and type(a) is type(b) and concrete(a) and concrete(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if a is None or b is None:
        I.error("TypeError", "%r not supported between %r and %r" % (op, tname(a), tname(b)), "signature")
    if isinstance(a, (str, AStr)) != isinstance(b, (str, AStr)) and isinstance(a, (str, AStr, int, float, Poly, Flt)) and isinstance(b, (str, AStr, int, float, Poly, Flt)):
        I.error("TypeError", "%r not supported between %r and %r" % (op, tname(a), tname(b)), "signature")
    return BCond(H("cmp", op, a, b))


def equal(I, a, b):
    if a is b:
        return True
    if isinstance(a, V.PathV) or isinstance(b, V.PathV):
        return V.path_eq(I, a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, EnumM):
            if isinstance(y, EnumM):
                return x.cls is y.cls and x.name == y.name
            if any(isinstance(c, Ext) and c.name in ("builtins.str", "builtins.int", "enum.IntEnum", "enum.StrEnum") for c in x.cls.mro):
                return equal(I, x.value, y)
            return False
    if a is None or b is None:
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, AStr) or isinstance(b, AStr):
        if isinstance(a, AStr) and isinstance(b, AStr) and a.vn == b.vn:
            return True
        if isinstance(a, (str, AStr)) and isinstance(b, (str, AStr)):
            return BCond(H("streq", *sorted([repr(vnof(a)), repr(vnof(b))])))
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if any(isinstance(x, SymRep) for x in list(a) + list(b)):
            return BCond(H("eq", a, b))
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            r = compare(I, "==", x, y)
            if not I.truth(r):
                return False
        return True
    if isinstance(a, DT) or isinstance(b, DT):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        return all(I.truth(compare(I, "==", a[k], b[k])) for k in a)
    if isinstance(a, (int, float, Poly, Flt)) != isinstance(b, (int, float, Poly, Flt)):
        if isinstance(a, (str, list, tuple, dict, Ext, Cls, Obj, Fn)) or isinstance(b, (str, list, tuple, dict, Ext, Cls, Obj, Fn)):
            return False
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, (Cls, Fn, Obj, Mod)) or isinstance(b, (Cls, Fn, Obj, Mod)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = class_lookup(I, x.cls, "__eq__")
                if isinstance(f, Fn):
                    return I.truth(I.call(BM(x, f), [y], {}))
        return False
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, (bool, Cond, BCond)) and isinstance(b, (bool, Cond, BCond)):
        return I.truth(a) == I.truth(b)
    if type(a) is not type(b) and isinstance(a, (str, bytes, int, float)) and isinstance(b, (str, bytes, int, float)):
        return a == b
    return BCond(H("eq", a, b))


def is_same(I, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x is None:
            if isinstance(y, Unk):
                return BCond(H("isnone", y.vn))
            return False
        if isinstance(x, bool):
            if isinstance(y, bool):
                return x == y
            if isinstance(y, (Unk, Cond, BCond)):
                if isinstance(y, Unk):
                    return BCond(H("is", x, y.vn))
                return I.truth(y) == x
            return False
    if isinstance(a, Unk) or isinstance(b, Unk):
        return BCond(H("is", a, b))
    if isinstance(a, EnumM) and isinstance(b, EnumM):
        return a.cls is b.cls and a.name == b.name
    if isinstance(a, (T, Obj, list, dict, Cls, Fn, Ext, DT)) or isinstance(b, (T, Obj, list, dict, Cls, Fn, Ext, DT)):
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return False
    r = compare(I, "==", a, b)
    return r


def contains(I, x, c):
    if isinstance(c, dict):
        c = list(c.keys())
    if isinstance(c, RangeV):
        if isinstance(x, (int, Poly)):
            return I.truth(compare(I, ">=", x, c.start)) and I.truth(compare(I, "<", x, c.stop))
        return BCond(H("in", x, c))
    if isinstance(c, (list, tuple, set, frozenset)):
        unk = False
        for y in c:
            if isinstance(y, SymRep):
                unk = True
                continue
            if isinstance(x, (DT, str, int, float, type(None), EnumM, Ext)) and isinstance(y, (DT, str, int, float, type(None), EnumM, Ext)):
                if equal(I, x, y) is True:
                    return True
                continue
            r = compare(I, "==", x, y) if not isinstance(x, T) else Unk("in")
            if isinstance(r, bool):
                if r:
                    return True
                continue
            if isinstance(r, Cond):
                if I.truth(r):
                    return True
                continue
            unk = True
        if unk:
            return BCond(H("in", x, list(c)))
        return False
    if isinstance(c, Cls) and c.ns.get("__enum__") is not None:
        for m in c.ns["__enum__"].values():
            if x is m or equal(I, x, m.value) is True:
                return True
        return BCond(H("in", x, c)) if isinstance(x, (Unk, AStr)) else False
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, AStr):
            return BCond(H("in", x, c))
        if x is None:
            I.error("TypeError", "'in <string>' requires string", "signature")
    if isinstance(c, Obj):
        f = class_lookup(I, c.cls, "__contains__")
        if f is not None:
            return I.truth(I.call(BM(c, f), [x], {}))
    if c is None or isinstance(c, (int, float, bool)):
        I.error("TypeError", "argument of type %r is not iterable" % tname(c), "signature")
    return BCond(H("in", x, c))


def mk_str(I, parts):
    if all(isinstance(p, (str, int, float, V.PathV)) or p is None for p in parts):
        return "".join(str(p) for p in parts)
    return AStr(tuple(p if isinstance(p, str) else repr(vnof(p)) for p in parts))


def decide_fact(I, fact):
    return V.decide_fact(I, fact)


def learn_fact(I, fact, r):
    return V.learn_fact(I, fact, r)


# ------------------------------------------------------------------ context managers
def ctx_enter(I, cm):
    if isinstance(cm, ExtObj):
        if cm.cls in ("torch.no_grad", "torch.inference_mode"):
            I.nograd += 1
            return cm
        if cm.cls in ("torch.random.fork_rng", "warnings.catch_warnings"):
            k = "fork_rng" if cm.cls == "torch.random.fork_rng" else "catchw"
            I.flags[k] = I.flags.get(k, 0) + 1
            return cm
        if cm.cls in ("torch.enable_grad", "torch.set_grad_enabled"):
            if cm.cls == "torch.enable_grad":
                cm.attrs["__old"] = I.nograd
                I.nograd = 0
            return cm
        if cm.cls in ("file", "url_response", "tempfile", "tempdir"):
            return V.ctx_enter(I, cm)
        if cm.cls == "gencm":
            return cm.attrs["enter"]
        return cm
    if isinstance(cm, Obj):
        f = class_lookup(I, cm.cls, "__enter__")
        if isinstance(f, Fn):
            return I.call(BM(cm, f), [], {})
    if isinstance(cm, list):       # generator-based context manager (already run)
        return cm[0] if cm else None
    return cm


def ctx_exit(I, cm):
    if isinstance(cm, ExtObj):
        if cm.cls in ("torch.no_grad", "torch.inference_mode"):
            I.nograd -= 1
        elif cm.cls in ("torch.random.fork_rng", "warnings.catch_warnings"):
            I.flags["fork_rng" if cm.cls == "torch.random.fork_rng" else "catchw"] -= 1
        elif cm.cls in ("torch.enable_grad", "torch.set_grad_enabled"):
            I.nograd = cm.attrs.get("__old", 0)
        elif cm.cls in ("file", "url_response", "tempfile", "tempdir"):
            V.ctx_exit(I, cm)
    elif isinstance(cm, Obj):
        f = class_lookup(I, cm.cls, "__exit__")
        if isinstance(f, Fn):
            I.call(BM(cm, f), [None, None, None], {})


# ------------------------------------------------------------------ calls
def instantiate(I, c, args, kwargs):
    if c.ns.get("__enum__") is not None:
        v = args[0] if args else kwargs.get("value")
        for m in c.ns["__enum__"].values():
            if v is m:
                return m
            if isinstance(v, EnumM) and v.cls is c and v.name == m.name:
                return m
        if isinstance(v, (Unk, AStr)):
            return Unk("enum", H("enum", c, v))
        for m in c.ns["__enum__"].values():
            if equal(I, m.value, v) is True:
                return m
        f = class_lookup(I, c, "_missing_")
        if f is not None:
            ff = f.f if isinstance(f, Static) else f
            r = I.call(BM(c, ff), [v], {})
            if r is not None:
                return r
        I.error("ValueError", "%r is not a valid %s" % (v, c.name), "enum")
    if c.ns.get("__ntfields__") is not None:
        names = c.ns["__ntfields__"]
        vals = list(args)
        for n in names[len(args):]:
            if n in kwargs:
                vals.append(kwargs[n])
            elif n in c.ns:
                vals.append(c.ns[n])
            else:
                I.error("TypeError", "missing argument %r" % n, "signature")
        return NT.make(vals, names, c.name)
    o = Obj(c)
    o.label = None
    I.heap.append(o)
    if c.ns.get("__dataclass__"):
        names = []
        for b in reversed(c.mro):
            if isinstance(b, Cls):
                for n in b.ns.get("__annotations__", []):
                    if n not in names:
                        names.append(n)
        for n, v in zip(names, args):
            o.attrs[n] = v
        for n in names[len(args):]:
            if n in kwargs:
                o.attrs[n] = kwargs[n]
            else:
                d = class_lookup(I, c, n)
                if d is None:
                    I.error("TypeError", "missing argument %r" % n, "signature")
                if isinstance(d, ExtObj) and d.cls == "dataclasses.field":
                    if "default_factory" in d.kwargs:
                        d = I.call(d.kwargs["default_factory"], [], {})
                    else:
                        d = d.kwargs.get("default")
                o.attrs[n] = d
        for k in kwargs:
            if k not in names:
                I.error("TypeError", "unexpected keyword %r" % k, "signature")
        f = class_lookup(I, c, "__post_init__")
        if isinstance(f, Fn):
            I.call(BM(o, f), [], {})
        return o
    f = class_lookup(I, c, "__init__")
    if isinstance(f, Fn):
        I.call(BM(o, f), args, kwargs)
    else:
        if is_module_cls(c):
            o.attrs["__modinit__"] = True
        elif (args or kwargs) and not open_bases(c) and not any(isinstance(b, Ext) and b.name.split(".")[-1] in EXC for b in c.mro):
            I.error("TypeError", "%s() takes no arguments" % c.name, "signature")
        o.attrs["args"] = tuple(args) if not is_module_cls(c) else None
        if o.attrs["args"] is None:
            del o.attrs["args"]
    return o


def call(I, f, args, kwargs):
    if isinstance(f, Bi):
        if f.f is None:
            return Unk(f.name)
        try:
            return f.f(I, *args, **kwargs)
        except TypeError as e:
            if TO.STRICT:
                raise
            I.note_unmodelled("%s(%s)" % (f.name, str(e)[:60]))
            return O.unk_from(I, f.name, [f.recv] + list(args) + list(kwargs.values()) if isinstance(f.recv, T) else list(args))
    if isinstance(f, Cls):
        return instantiate(I, f, args, kwargs)
    if isinstance(f, Obj):
        m = class_lookup(I, f.cls, "__call__")
        if isinstance(m, Fn):
            return I.call(BM(f, m), args, kwargs)
        if is_module(f):
            m = class_lookup(I, f.cls, "forward")
            if "forward" in f.attrs:
                return I.call(f.attrs["forward"], args, kwargs)
            if isinstance(m, Fn):
                return I.call(BM(f, m), args, kwargs)
            I.error("NotImplementedError", "Module %s is missing forward()" % f.cls.name, "attr")
        if open_bases(f.cls):
            return Unk("call")
        I.error("TypeError", "%r object is not callable" % f.cls.name, "signature")
    if isinstance(f, Ext):
        return ext_call(I, f.name, args, kwargs)
    if isinstance(f, ExtObj):
        if f.cls in LAYERS or f.cls == "torch.nn.Sequential":
            return layer_call(I, f, args, kwargs)
        if f.cls == "functools.partial":
            return I.call(f.args[0], list(f.args[1:]) + list(args), {**f.kwargs, **kwargs})
        if f.cls == "namedtuple":
            names = f.attrs["names"]
            vals = list(args) + [kwargs[n] for n in names[len(args):] if n in kwargs]
            if len(vals) != len(names):
                I.error("TypeError", "wrong number of fields for %s" % f.attrs["name"], "signature")
            return NT.make(vals, names, f.attrs["name"])
        if f.cls.startswith("torchaudio.transforms."):
            return Unk("transform")
        return O.unk_from(I, f.cls, list(args) + list(kwargs.values()))
    if isinstance(f, DT):
        return Unk("dtype call")
    if isinstance(f, Static):
        return I.call(f.f, args, kwargs)
    if isinstance(f, EnumM):
        I.error("TypeError", "enum member is not callable", "signature")
    if f is None or isinstance(f, (int, float, str, T, list, tuple, dict, Poly, Flt)):
        I.error("TypeError", "%r object is not callable" % tname(f), "signature")
    return O.unk_from(I, "call", [f] + list(args) + list(kwargs.values()) if isinstance(f, Unk) else list(args))


# ------------------------------------------------------------------ external functions
SIDE = {"torch.manual_seed", "torch.seed", "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_grad_enabled",
        "torch.set_num_threads", "torch.set_num_interop_threads", "torch.use_deterministic_algorithms", "torch.set_default_device",
        "torch.set_printoptions", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.set_device", "torch.random.manual_seed",
        "torch.set_rng_state", "torch.random.set_rng_state", "torch.autograd.set_detect_anomaly", "torch.set_flush_denormal",
        "torch.set_float32_matmul_precision", "torch.random.seed", "torch.set_warn_always", "torch.autograd.set_grad_enabled",
        "numpy.random.seed", "numpy.random.set_state", "numpy.seterr", "numpy.set_printoptions", "random.seed", "random.setstate",
        "os.chdir", "os.putenv", "os.umask", "os.setenv", "os.unsetenv", "warnings.filterwarnings", "warnings.simplefilter",
        "warnings.resetwarnings", "logging.basicConfig", "logging.disable", "sys.setrecursionlimit", "locale.setlocale", "signal.signal",
        "atexit.register", "gc.disable", "torch.backends.cudnn.flags", "torchaudio.set_audio_backend", "torch.multiprocessing.set_start_method"}


# process-wide state that can be put back: setter -> state, getter -> state
STATE = {"torch.manual_seed": "rng", "torch.seed": "rng", "torch.random.manual_seed": "rng", "torch.random.seed": "rng", "torch.set_rng_state": "rng",
         "torch.random.set_rng_state": "rng", "torch.set_num_threads": "threads", "numpy.random.seed": "nprng", "numpy.random.set_state": "nprng",
         "random.seed": "pyrng", "random.setstate": "pyrng", "os.chdir": "cwd", "torch.set_default_dtype": "dtype",
         "torch.use_deterministic_algorithms": "det", "torch.set_float32_matmul_precision": "matmul"}
STATE_GET = {"torch.get_rng_state": "rng", "torch.random.get_rng_state": "rng", "torch.get_num_threads": "threads", "numpy.random.get_state": "nprng",
             "random.getstate": "pyrng", "os.getcwd": "cwd", "torch.are_deterministic_algorithms_enabled": "det", "torch.get_float32_matmul_precision": "matmul"}


def is_side(n):
    last = n.rsplit(".", 1)[-1]
    if n.startswith(("torch.backends.", "torch._C.")):
        return last.startswith(("set_", "enable_", "allow_", "preferred_", "_set_"))
    return n.startswith(("torch.set_", "torch.cuda.set_", "torch.random.set_", "subprocess.", "atexit."))


def side_call(I, n, args, kwargs):
    if n == "torch.set_grad_enabled":
        # takes effect at once; as a context manager it is undone on exit
        o = ExtObj(n, tuple(args), dict(kwargs))
        o.attrs["__old"] = I.nograd
        v = args[0] if args else kwargs.get("mode")
        if isinstance(v, bool):
            I.nograd = 0 if v else max(1, I.nograd)
        return o
    g = STATE.get(n)
    a0 = args[0] if args else next(iter(kwargs.values()), None)
    if g is not None:
        back = isinstance(a0, ExtObj) and a0.attrs.get("gstate") == (g, True)
        if g == "cwd":
            back = back or V.pstr(a0) == V.CWD
        if g == "dtype":
            back = isinstance(a0, DT) and a0 is F32
            if isinstance(a0, DT):
                I.default_dtype = a0
        if back:
            for e in I.gstate.pop(g, []):
                if e in I.events:
                    I.events.remove(e)
            return None
    ev = I.event("global_effect", n)
    if g is not None and ev is not None:
        I.gstate.setdefault(g, []).append(ev)
    return None


def ext_call(I, n, args, kwargs):
    n = canon(n)
    if n in SIDE or is_side(n):
        return side_call(I, n, args, kwargs)
    if n in STATE_GET and (n != "os.getcwd" or I.vfs is None):
        o = ExtObj("state", (), {})
        o.attrs["gstate"] = (STATE_GET[n], not I.gstate.get(STATE_GET[n]))
        return o
    h = FUNCS.get(n)
    if h is not None:
        return h(I, *args, **kwargs)
    last = n.rsplit(".", 1)[-1]
    if last in EXC and n.startswith("builtins."):
        return ExtObj(n, tuple(args), dict(kwargs))
    if n in LAYERS:
        return new_layer(I, n, args, kwargs)
    if n.startswith("torch."):
        if n.startswith("torch.nn.init."):
            return TO.call_inplace(I, "uniform_", [args[0]], {}) if args and isinstance(args[0], T) else None
        base = n[len("torch."):]
        if n.startswith("torch.nn.functional."):
            key = last
            if key in ("linear", "conv1d", "mse_loss", "l1_loss"):
                I.note_unmodelled(n)
                return O.unk_from(I, key, list(args) + list(kwargs.values()))
            if key in TO.OPS:
                return TO.call_op(I, key, args, kwargs)
        if n.startswith("torch.Tensor."):
            x = args[0]
            if isinstance(x, T):
                return I.call(tensor_attr(I, x, last), list(args[1:]), kwargs)
        if n.startswith("torch.linalg.") and "linalg_" + last in TO.OPS:
            return TO.call_op(I, "linalg_" + last, args, kwargs)
        if last in TO.OPS and n.count(".") <= 2:
            return TO.call_op(I, last, args, kwargs)
        if last.endswith("_") and last[:-1] in TO.OPS and args and isinstance(args[0], T):
            return TO.call_inplace(I, last, args, kwargs)
        I.note_unmodelled(n)
        return O.unk_from(I, n, list(args) + list(kwargs.values()))
    if n.startswith("numpy."):
        return numpy_call(I, n, last, args, kwargs)
    if n.startswith("math."):
        return math_call(I, last, args)
    r = V.call(I, n, args, kwargs)
    if r is not V.NOPE:
        return r
    if n.startswith("typing.") or n.startswith("abc.") or n.startswith("collections.abc."):
        return Ext(n)
    I.note_unmodelled(n)
    return O.unk_from(I, n, list(args) + list(kwargs.values()))


FUNCS = {}


def fn(*names):
    def deco(f):
        for x in names:
            FUNCS[x] = f
        return f
    return deco


def b(*names):
    return fn(*["builtins." + x for x in names])


class _Builtins(dict):
    pass


BUILTINS = _Builtins()
for _n in dir(builtins):
    if not _n.startswith("__") or _n == "__import__":
        BUILTINS[_n] = Ext("builtins." + _n)
BUILTINS["True"], BUILTINS["False"], BUILTINS["None"] = True, False, None
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["NotImplemented"] = Ext("builtins.NotImplemented")
BUILTINS["__debug__"] = True


@b("len")
def b_len(I, x):
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, SymRep) for y in x):
            p = P(0)
            for y in x:
                p = p + (y.n if isinstance(y, SymRep) else 1)
            return lower(p)
        return len(x)
    if isinstance(x, (dict, str, set, frozenset, bytes)):
        return len(x)
    if isinstance(x, T):
        if x.shape is None:
            return Unk("len", H("len", x.vn))
        if not x.shape:
            I.error("TypeError", "len() of a 0-d tensor", "shape")
        return lower(x.shape[0].size)
    if isinstance(x, RangeV):
        n = I.range_len(x)
        if n is not None:
            return n
        if lower(P(x.step)) == 1:
            return lower(I.facts.maximum(P(x.stop) - P(x.start), P(0)))
        return Unk("len", H("len", x.vn))
    if isinstance(x, ExtObj):
        l = ext_list(I, x)
        if l is not None:
            return len(l)
    if isinstance(x, Obj):
        f = class_lookup(I, x.cls, "__len__")
        if f is not None:
            return I.call(BM(x, f), [], {})
    if isinstance(x, Cls) and x.ns.get("__enum__") is not None:
        return len(x.ns["__enum__"])
    if isinstance(x, SymIter):
        return lower(x.n)
    if x is None or isinstance(x, (int, float, bool, Poly, Flt)):
        I.error("TypeError", "object of type %r has no len()" % tname(x), "signature")
    return Unk("len", H("len", x))


@b("range")
def b_range(I, *a):
    if any(not isinstance(x, (int, Poly)) for x in a):
        if any(x is None or isinstance(x, (float, str, Flt)) for x in a):
            I.error("TypeError", "%r object cannot be interpreted as an integer" % tname([x for x in a if not isinstance(x, (int, Poly))][0]), "signature")
        return Unk("range", H("range", list(a)))
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def as_seq(I, v):
    l = I.to_list(v) if not (isinstance(v, RangeV) and (I.range_len(v) or 0) > 64) else None
    if l is not None:
        return l, None
    if isinstance(v, (list, tuple)) and any(isinstance(x, SymRep) for x in v):
        if len(v) == 1:
            return None, (lambda i: v[0].elem, v[0].n)
    return None, I.sym_iter(v)


@b("enumerate")
def b_enumerate(I, x, start=0):
    l, s = as_seq(I, x)
    if l is not None:
        return [(lower(P(i) + P(start)) if intlike(start) else Unk("i"), v) for i, v in enumerate(l)]
    e, n = s
    return SymIter(lambda i: (lower(P(i) + P(start)) if isinstance(i, (int, Poly)) else i, e(i)), n)


@b("zip")
def b_zip(I, *xs, strict=False):
    ls = [as_seq(I, x) for x in xs]
    if all(l is not None for l, _ in ls):
        return [tuple(t) for t in zip(*[l for l, _ in ls])]
    fixed = [l for l, _ in ls if l is not None]
    if fixed:
        m = min(len(l) for l in fixed)
        out = []
        for j in range(m):
            out.append(tuple(l[j] if l is not None else s[0](P(j)) for l, s in ls))
        return out
    n = ls[0][1][1]
    return SymIter(lambda i: tuple(s[0](i) for _, s in ls), n)


@b("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter")
def b_seq(I, x=(), **k):
    return seqconv(I, "list", x, k)


def seqconv(I, kind, x, k=None):
    l, s = as_seq(I, x)
    if l is None:
        if isinstance(x, (list, tuple)):
            l = list(x)
        else:
            e, n = s
            l = [SymRep(e(I.facts.new_sym("it:%s" % H(n), 0)), n)]
    if kind == "list":
        return list(l)
    if kind == "tuple":
        return Size(l) if False else tuple(l)
    if kind in ("set", "frozenset"):
        try:
            return set(l) if kind == "set" else frozenset(l)
        except TypeError:
            return Unk("set")
    if kind == "reversed":
        return list(l)[::-1]
    if kind == "sorted":
        rev = (k or {}).get("reverse", False)
        key = (k or {}).get("key")
        try:
            if key is not None:
                ks = [I.call(key, [x], {}) for x in l]
                if all(concrete(y) for y in ks):
                    return [x for _, x in sorted(zip(ks, l), key=lambda t: t[0], reverse=bool(rev))]
                return list(l)
            if all(isinstance(x, V.PathV) for x in l):
                return sorted(l, key=lambda p: p.p, reverse=bool(rev))
            if all(isinstance(x, (int, float, str)) for x in l):
                return sorted(l, reverse=bool(rev))
        except TypeError:
            pass
        return list(l)
    return list(l)


for _k in ("list", "tuple", "set", "frozenset", "sorted", "reversed"):
    FUNCS["builtins." + _k] = (lambda kind: lambda I, x=(), **k: seqconv(I, kind, x, k))(_k)


@b("iter")
def b_iter(I, x, *a):
    o = ExtObj("iter", (), {}, H("iter", x))
    l = I.to_list(x)
    o.attrs["src"] = l if l is not None else x
    o.attrs["pos"] = 0
    return o


@b("next")
def b_next(I, it, *d):
    if isinstance(it, ExtObj) and it.cls == "iter":
        l = it.attrs["src"]
        if isinstance(l, list):
            i = it.attrs["pos"]
            if i < len(l):
                it.attrs["pos"] = i + 1
                return l[i].elem if isinstance(l[i], SymRep) else l[i]
            if d:
                return d[0]
            I.error("StopIteration", "", "value")
        return Unk("next")
    if isinstance(it, list):
        if it:
            return it.pop(0)
        if d:
            return d[0]
        I.error("StopIteration", "", "value")
    return Unk("next")


@b("dict")
def b_dict(I, *a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            l = I.to_list(a[0])
            if l is None:
                return Unk("dict")
            for x in l:
                kk, vv = I.to_list(x)
                d[kk] = vv
    d.update(k)
    return d


@b("int")
def b_int(I, x=0, *a):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            I.error("ValueError", "cannot convert float to int", "value")
        return int(x)
    if isinstance(x, Poly):
        return x
    if isinstance(x, str):
        try:
            return int(x, *a)
        except ValueError as e:
            I.error("ValueError", str(e), "value")
    if isinstance(x, Flt):
        u = Unk("int", H("int", x.vn))
        u.data, u.mix, u.sev = x.data, x.mix, x.sev
        return u
    if isinstance(x, (Cond, BCond)):
        return int(I.truth(x))
    if isinstance(x, T):
        r = TO.call_op(I, "item", [x], {})
        u = Unk("int", H("int", x.vn))
        u.data, u.mix, u.sev = x.data, x.mix, getattr(r, "sev", {})
        return u
    if x is None or isinstance(x, (list, tuple, dict)):
        I.error("TypeError", "int() argument must be a number, not %r" % tname(x), "signature")
    return Unk("int", H("int", x))


@b("float")
def b_float(I, x=0.0):
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, Poly):
        r = Flt(H("float", x), O.scal_lo(I, x), True)
        return r
    if isinstance(x, Flt):
        return x
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as e:
            I.error("ValueError", str(e), "value")
    if isinstance(x, T):
        return TO.call_op(I, "item", [x], {})
    if x is None:
        I.error("TypeError", "float() argument must be a number, not 'NoneType'", "signature")
    return Unk("float", H("float", x))


@b("complex")
def b_complex(I, *a):
    if all(isinstance(x, (int, float, complex)) for x in a):
        return complex(*a)
    return Unk("complex", H("complex", list(a)))


@b("bool")
def b_bool(I, x=False):
    if isinstance(x, (Cond, BCond)):
        return x
    if isinstance(x, (T, Unk, Flt)):
        return BCond(H("bool", x.vn), x.mix, x.data, dict(x.sev))
    return I.truth(x)


@b("str", "repr", "format", "ascii")
def b_str(I, x="", *a):
    if isinstance(x, V.PathV):
        return x.p
    if isinstance(x, (str, int, float, bool)) or x is None:
        return str(x)
    if isinstance(x, AStr):
        return x
    return AStr(("str", repr(vnof(x))))


@b("abs")
def b_abs(I, x):
    if isinstance(x, NUM):
        return abs(x)
    if isinstance(x, T):
        return TO.call_op(I, "abs", [x], {})
    if isinstance(x, Poly):
        if I.truth(Cond(">=", x, 0)):
            return x
        return lower(-x)
    if isinstance(x, Flt):
        r = Flt(H("abs", x.vn), "ge0" if x.lo in ("any", "ge0") else ("gt0" if x.lo != "unk" else "unk"), x.hi, x.data)
        r.mix, r.sev, r.nan = x.mix, x.sev, x.nan
        return r
    return Unk("abs", H("abs", x))


def minmax_(I, kind, a, k):
    xs = list(a)
    if len(xs) == 1:
        if isinstance(xs[0], T):
            return TO.call_op(I, "amax" if kind == "max" else "amin", [xs[0]], {}) if "amax" in TO.OPS else TO.call_op(I, kind, [xs[0]], {})
        l = I.to_list(xs[0])
        if l is None:
            return Unk(kind, H(kind, xs[0]))
        xs = l
        if not xs:
            if "default" in k:
                return k["default"]
            I.error("ValueError", "%s() arg is an empty sequence" % kind, "value")
    if k.get("key") is not None:
        return Unk(kind, H(kind, xs))
    if all(isinstance(x, (int, float)) for x in xs):
        return max(xs) if kind == "max" else min(xs)
    if all(isinstance(x, (int, Poly)) for x in xs):
        r = P(xs[0])
        for x in xs[1:]:
            r = P(I.facts.maximum(r, P(x)) if kind == "max" else I.facts.minimum(r, P(x)))
        return lower(r)
    if all(isinstance(x, (int, float, Poly, Flt)) for x in xs):
        los = [O.scal_lo(I, x) for x in xs]
        if kind == "max":
            lo = "gtc" if "gtc" in los else ("gt0" if "gt0" in los else ("ge0" if "ge0" in los else "any"))
        else:
            lo = los[0]
            for x in los[1:]:
                lo = O.lo_join(lo, x)
        r = Flt(H(kind, xs), lo, all(not isinstance(x, Flt) or x.hi for x in xs))
        for x in xs:
            if isinstance(x, Flt):
                r.data, r.mix, r.sev, r.nan = r.data or x.data, r.mix | x.mix, {**r.sev, **x.sev}, r.nan | x.nan
        return r
    if any(x is None for x in xs):
        I.error("TypeError", "%s() of NoneType" % kind, "signature")
    return O.unk_from(I, kind, xs)


FUNCS["builtins.max"] = lambda I, *a, **k: minmax_(I, "max", a, k)
FUNCS["builtins.min"] = lambda I, *a, **k: minmax_(I, "min", a, k)


@b("sum")
def b_sum(I, x, start=0):
    if isinstance(x, T):
        l = I.to_list(x)
        if l is None:
            return TO.call_op(I, "sum", [x], {"dim": 0})
    else:
        l = I.to_list(x)
    if l is None:
        if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], SymRep):
            e, n = x[0].elem, x[0].n
            if isinstance(e, (int, Poly)):
                return lower(P(e) * n + P(start))
            if isinstance(e, T):
                r = O.binop(I, "Add", e, e)
                r.vn = H("symsum", e, n)
                return r
        return O.unk_from(I, "sum", [x])
    r = start
    for y in l:
        r = I.binop("Add", r, y)
    return r


@b("any", "all")
def b_any(I, x):
    return Unk("any", H("any", x))


def anyall(I, kind, x):
    if isinstance(x, T):
        return TO.call_op(I, kind, [x], {})
    l = I.to_list(x)
    if l is None:
        if isinstance(x, (list, tuple)):
            l = [y.elem if isinstance(y, SymRep) else y for y in x]
        else:
            return BCond(H(kind, x))
    for y in l:
        t = I.truth(y)
        if kind == "any" and t:
            return True
        if kind == "all" and not t:
            return False
    return kind == "all"


FUNCS["builtins.any"] = lambda I, x: anyall(I, "any", x)
FUNCS["builtins.all"] = lambda I, x: anyall(I, "all", x)


@b("map")
def b_map(I, f, *xs):
    l = b_zip(I, *xs)
    if isinstance(l, list):
        return [I.call(f, list(t), {}) for t in l]
    return [SymRep(I.call(f, list(l.elem(I.facts.new_sym("map:%s" % H(l.n), 0))), {}), l.n)]


@b("filter")
def b_filter(I, f, x):
    l = I.to_list(x)
    if l is None:
        return x
    return [y for y in l if I.truth(I.call(f, [y], {}) if f is not None else y)]


@b("print", "breakpoint")
def b_print(I, *a, **k):
    return None


@b("round")
def b_round(I, x, n=None):
    if isinstance(x, (int, float)):
        return round(x, n) if n is not None else round(x)
    if isinstance(x, Poly):
        return x
    return Unk("round", H("round", x, n))


@b("pow")
def b_pow(I, a, c, *m):
    return I.binop("Pow", a, c)


@b("divmod")
def b_divmod(I, a, c):
    return (I.binop("FloorDiv", a, c), I.binop("Mod", a, c))


@b("slice")
def b_slice(I, *a):
    return slice(*a)


@b("id", "hash")
def b_id(I, x):
    return Unk("id", H("id", x))


@b("object")
def b_object(I):
    return ExtObj("builtins.object")


@b("bytes", "bytearray")
def b_bytes(I, *a, **k):
    if all(concrete(x) for x in a):
        try:
            return bytes(*a)
        except Exception:
            pass
    return Unk("bytes")


@b("type")
def b_type(I, x, *a):
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, EnumM):
        return x.cls
    for t, n in ((bool, "bool"), (int, "int"), (Poly, "int"), (float, "float"), (Flt, "float"), (str, "str"), (AStr, "str"), (list, "list"),
                 (dict, "dict"), (NT, None), (tuple, "tuple")):
        if isinstance(x, t) and n:
            return Ext("builtins." + n)
    if isinstance(x, T):
        return Ext("numpy.ndarray") if x.kind == "ndarray" else Ext("torch.Tensor")
    if isinstance(x, V.PathV):
        return Ext("pathlib.Path")
    return Unk("type", H("type", x))


@b("vars")
def b_vars(I, x=None):
    if isinstance(x, ExtObj):
        return x.attrs
    if isinstance(x, Obj):
        return x.attrs
    return Unk("vars")


@b("dir", "globals", "locals")
def b_dir(I, *a):
    return Unk("dir")


@b("callable")
def b_callable(I, x):
    if isinstance(x, (Fn, BM, Bi, Cls, Ext)):
        return True
    if isinstance(x, Obj):
        return is_module(x) or class_lookup(I, x.cls, "__call__") is not None
    if isinstance(x, ExtObj):
        return is_module(x) or x.cls in ("functools.partial", "namedtuple")
    if isinstance(x, Unk):
        return BCond(H("callable", x.vn))
    return False


@b("hasattr")
def b_hasattr(I, x, name):
    if isinstance(x, Unk) or not isinstance(name, str):
        return BCond(H("hasattr", x, name))
    try:
        r = getattr_(I, x, name)
    except AbsRaise as e:
        if e.kind == "AttributeError":
            return False
        raise
    if isinstance(r, Unk) and not isinstance(x, (Obj, Mod)):
        return BCond(H("hasattr", x, name))
    return True


@b("getattr")
def b_getattr(I, x, name, *d):
    if not isinstance(name, str):
        return Unk("getattr", H("getattr", x, name))
    if d:
        try:
            return getattr_(I, x, name)
        except AbsRaise as e:
            if e.kind == "AttributeError":
                return d[0]
            raise
    return getattr_(I, x, name)


@b("setattr")
def b_setattr(I, x, name, v):
    if isinstance(name, str):
        setattr_(I, x, name, v)
    else:
        I.event("attr_write", x, "?")


@b("delattr")
def b_delattr(I, x, name):
    if isinstance(x, Obj) and isinstance(name, str):
        x.attrs.pop(name, None)


def type_match(I, x, t):
    """True/False/None"""
    if isinstance(t, tuple) or isinstance(t, list):
        rs = [type_match(I, x, y) for y in t]
        if True in rs:
            return True
        return None if None in rs else False
    if isinstance(x, Unk):
        return None
    if isinstance(t, Cls):
        if isinstance(x, Obj):
            return t in x.cls.mro
        if isinstance(x, EnumM):
            return t in x.cls.mro
        if isinstance(x, NT):
            return x.tname == t.name
        return False
    if isinstance(t, Ext):
        n = t.name
        if isinstance(x, Obj):
            if n in ("torch.nn.Module",):
                return is_module(x)
            if n == "builtins.object":
                return True
            if any(isinstance(c, Ext) and c.name == n for c in x.cls.mro):
                return True
            return None if open_bases(x.cls) else False
        if n == "builtins.object":
            return True
        if n in ("torch.Tensor", "torch.FloatTensor"):
            return isinstance(x, T) and x.kind in ("tensor", "param", "buffer") if not isinstance(x, ExtObj) else False
        if n == "torch.nn.Parameter":
            return isinstance(x, T) and x.kind == "param"
        if n == "numpy.ndarray":
            return isinstance(x, T) and x.kind == "ndarray"
        if n == "builtins.str":
            return isinstance(x, (str, AStr)) and not isinstance(x, V.PathV)
        if n == "builtins.bool":
            return isinstance(x, (bool, Cond, BCond))
        if n in ("builtins.int", "numbers.Integral", "numpy.integer"):
            return isinstance(x, (int, Poly)) and (n != "numpy.integer")
        if n in ("builtins.float", "numpy.floating"):
            return isinstance(x, (float, Flt))
        if n in ("numbers.Number", "numbers.Real"):
            return isinstance(x, (int, float, Poly, Flt))
        if n == "builtins.complex":
            return isinstance(x, complex)
        if n in ("builtins.dict", "collections.OrderedDict", "collections.abc.Mapping", "typing.Dict", "collections.abc.MutableMapping"):
            return isinstance(x, dict)
        if n in ("builtins.list", "typing.List"):
            return isinstance(x, list)
        if n in ("builtins.tuple", "typing.Tuple"):
            return isinstance(x, tuple) and not (x[:1] == ("dev",))
        if n in ("collections.abc.Sequence", "typing.Sequence"):
            return isinstance(x, (list, tuple, str))
        if n in ("collections.abc.Iterable", "typing.Iterable"):
            return isinstance(x, (list, tuple, str, dict, set, T))
        if n in ("builtins.set",):
            return isinstance(x, set)
        if n in ("pathlib.Path", "pathlib.PurePath", "os.PathLike"):
            return isinstance(x, V.PathV)
        if n == "torch.Size":
            return isinstance(x, Size)
        if n == "torch.dtype":
            return isinstance(x, DT)
        if n == "torch.device":
            return isinstance(x, tuple) and x[:1] == ("dev",)
        if n == "torch.nn.Module":
            return is_module(x)
        if n == "builtins.type":
            return isinstance(x, (Cls, Ext))
        if n in ("collections.abc.Callable", "typing.Callable"):
            r = b_callable(I, x)
            return r if isinstance(r, bool) else None
        if isinstance(x, ExtObj):
            return True if x.cls == n else (None if n.split(".")[0] == x.cls.split(".")[0] else False)
        if isinstance(x, EnumM) and n in ("enum.Enum",):
            return True
        return False if isinstance(x, (int, float, str, list, tuple, dict, T, Poly, Flt)) else None
    return None


@b("isinstance")
def b_isinstance(I, x, t):
    r = type_match(I, x, t)
    if r is None:
        return BCond(H("isinstance", x, t))
    return r


@b("issubclass")
def b_issubclass(I, x, t):
    if isinstance(x, Cls):
        ts = t if isinstance(t, tuple) else (t,)
        return any(y in x.mro for y in ts)
    return BCond(H("issubclass", x, t))


@b("super")
def b_super(I, cls=None, obj=None):
    if cls is None:
        return Unk("super")
    return SuperV(cls, obj)


@b("__import__")
def b_import(I, name, *a, **k):
    return do_import(I, name, bool(k.get("fromlist") or (len(a) > 2 and a[2])))


@fn("importlib.import_module")
def import_module(I, name, *a, **k):
    return do_import(I, name, True)


def do_import(I, name, leaf):
    if not isinstance(name, str):
        return Unk("import")
    if name in I.prog.trees and name.split(".")[0] != I.prog.pkg:
        return I.import_module(name)
    if name.split(".")[0] == I.prog.pkg:
        m = I.resolve_import(name, 0, I.prog.pkg)
        return m if leaf else I.modules[I.prog.pkg]
    return Ext(name if leaf else name.split(".")[0])


@b("property")
def b_property(I, fget=None, fset=None, *a, **k):
    return Prop(fget, fset)


@b("staticmethod", "classmethod")
def b_static(I, f):
    return Static(f, "staticmethod")


FUNCS["builtins.classmethod"] = lambda I, f: Static(f, "classmethod")


@b("chr", "ord", "hex", "bin", "oct")
def b_chr(I, x):
    return Unk("chr", H("chr", x))


for _n2 in ("chr", "ord", "hex", "bin", "oct"):
    FUNCS["builtins." + _n2] = (lambda nm: lambda I, x: getattr(builtins, nm)(x) if concrete(x) else Unk(nm))(_n2)


@b("exit", "quit")
def b_exit(I, *a):
    I.error("SystemExit", "", "explicit")


@fn("sys.exit")
def sys_exit(I, *a):
    I.error("SystemExit", "", "explicit")


@fn("builtins.__tv_model__")
def tv_model(I, self, X, *a, **k):
    f = I.flags.get("model_hook")
    return f(I, self, X, *a, **k) if f else O.unk_from(I, "model", [X])


BUILTINS["__tv_model__"] = Ext("builtins.__tv_model__")


@fn("builtins.__tv_trained__")
def tv_trained(I, o):
    I.flags["trained_hook"](o)


BUILTINS["__tv_trained__"] = Ext("builtins.__tv_trained__")


# ---- typing / functools / misc
@fn("functools.partial")
def partial(I, *a, **k):
    return ExtObj("functools.partial", tuple(a), dict(k))


@fn("collections.namedtuple")
def namedtuple_(I, name, fields, **k):
    o = ExtObj("namedtuple", (name,), {})
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    o.attrs["names"] = tuple(I.to_list(fields))
    o.attrs["name"] = name
    return o


@fn("collections.OrderedDict")
def odict(I, *a, **k):
    return b_dict(I, *a, **k)


@fn("collections.defaultdict")
def ddict(I, *a, **k):
    return b_dict(I, *a[1:], **k)


@fn("typing.cast")
def cast(I, t, v):
    return v


@fn("typing.NamedTuple")
def typing_nt(I, name, fields=(), **k):
    return namedtuple_(I, name, [f[0] for f in fields])


@fn("typing.TypeVar", "typing.NewType")
def typevar(I, *a, **k):
    return Ext("typing.Any")


@fn("copy.deepcopy", "copy.copy")
def deepcopy(I, x, *a):
    return copy_val(I, x, {})


def copy_val(I, x, memo):
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, T):
        return TO.call_op(I, "clone", [x], {})
    if isinstance(x, list):
        return [copy_val(I, y, memo) for y in x]
    if isinstance(x, dict):
        return {k: copy_val(I, y, memo) for k, y in x.items()}
    if isinstance(x, Obj):
        o = Obj(x.cls)
        memo[id(x)] = o
        o.params = dict(x.params)
        I.heap.append(o)
        for k, v in x.attrs.items():
            o.attrs[k] = copy_val(I, v, memo)
        return o
    if isinstance(x, ExtObj):
        o = ExtObj(x.cls, x.args, x.kwargs, x.vn)
        memo[id(x)] = o
        o.attrs = {k: copy_val(I, v, memo) for k, v in x.attrs.items()}
        return o
    return x


@fn("itertools.product")
def product(I, *xs, repeat=1):
    ls = [I.to_list(x) for x in xs] * (repeat if isinstance(repeat, int) else 1)
    if any(l is None for l in ls):
        return Unk("product")
    import itertools
    return [tuple(t) for t in itertools.product(*ls)]


@fn("itertools.chain")
def chain(I, *xs):
    out = []
    for x in xs:
        l = I.to_list(x)
        if l is None:
            e, n = I.sym_iter(x)
            out.append(SymRep(e(P(0)), n))
        else:
            out.extend(l)
    return out


@fn("itertools.repeat")
def repeat_(I, x, n=None):
    if n is None:
        return Unk("repeat")
    return [SymRep(x, P(n))] if not isinstance(n, int) else [x] * n


@fn("itertools.count")
def count_(I, *a):
    return Unk("count")


@fn("functools.reduce")
def freduce(I, f, x, *init):
    l = I.to_list(x)
    if l is None:
        return Unk("reduce")
    l = list(init) + list(l)
    r = l[0]
    for y in l[1:]:
        r = I.call(f, [r, y], {})
    return r


@fn("operator.attrgetter", "operator.itemgetter")
def opgetter(I, *a):
    return Unk("getter")


for _nm, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult")):
    FUNCS["operator." + _nm] = (lambda o: lambda I, a, c: I.binop(o, a, c))(_op)


@fn("enum.auto")
def enum_auto(I):
    return ExtObj("enum.auto")


@fn("enum.unique")
def enum_unique(I, c):
    return c


@fn("dataclasses.dataclass")
def dataclass_(I, *a, **k):
    if a:
        a[0].ns["__dataclass__"] = True
        return a[0]
    return ExtObj("dataclasses.dataclass", (), k)


@fn("dataclasses.field")
def dfield(I, **k):
    return ExtObj("dataclasses.field", (), k)


@fn("functools.lru_cache", "functools.wraps", "functools.cache")
def lru(I, *a, **k):
    return ExtObj("functools.lru_cache", (), {})


@fn("warnings.catch_warnings")
def catchw(I, *a, **k):
    return ExtObj("warnings.catch_warnings")


@fn("contextlib.suppress")
def suppress(I, *a):
    return ExtObj("contextlib.suppress", tuple(a))


@fn("contextlib.nullcontext")
def nullctx(I, x=None):
    return ExtObj("contextlib.nullcontext", (x,))


@fn("warnings.warn", "warnings.warn_explicit")
def warn(I, *a, **k):
    I.event("warn")
    return None


@fn("logging.getLogger")
def getlogger(I, *a):
    return Unk("logger")


@fn("time.time", "time.perf_counter", "time.monotonic", "time.process_time")
def timef(I):
    I.event("nondet", "time")
    return Flt(H("time", I.steps), "gt0")


@fn("torch.is_tensor")
def is_tensor(I, x):
    return type_match(I, x, Ext("torch.Tensor")) if not isinstance(x, Unk) else BCond(H("is_tensor", x.vn))


@fn("torch.is_complex")
def t_is_complex(I, x):
    return TO.call_op(I, "is_complex", [x], {})


@fn("torch.device")
def device(I, d="cpu", *a, **k):
    if isinstance(d, tuple) and d[:1] == ("dev",):
        return d
    if isinstance(d, str):
        return ("dev", d)
    return Unk("device", H("device", d))


@fn("torch.cuda.is_available", "torch.backends.mps.is_available")
def cuda_avail(I):
    if "cuda" in I.flags:
        return I.flags["cuda"]
    return BCond(H("cuda_available"), fact=None)


@fn("torch.get_default_dtype")
def gdd(I):
    return I.default_dtype


@fn("torch.is_grad_enabled")
def ige(I):
    return I.nograd == 0


@fn("torch.no_grad", "torch.inference_mode", "torch.enable_grad", "torch.autocast", "torch.cuda.amp.autocast", "torch.random.fork_rng")
def nograd(I, *a, **k):
    return ExtObj("torch.no_grad")


for _n3 in ("torch.no_grad", "torch.inference_mode", "torch.enable_grad", "torch.autocast", "torch.cuda.amp.autocast", "torch.random.fork_rng"):
    def _mk(n):
        def f(I, *a, **k):
            if a and isinstance(a[0], Fn):
                g = Fn(a[0].name, a[0].node, a[0].module, a[0].closure, a[0].qual, a[0].defaults, a[0].kwdefaults, a[0].cls)
                if n in ("torch.no_grad", "torch.inference_mode"):
                    g.wrap = ("nograd",)
                return g
            return ExtObj(n, tuple(a), dict(k))
        return f
    FUNCS[_n3] = _mk(_n3)


@fn("torch.nn.Parameter")
def parameter(I, x=None, requires_grad=True):
    if not isinstance(x, T):
        return Unk("parameter")
    t = x.clone()
    t.kind = "param"
    t.grad = bool(requires_grad)
    t.view_of = None
    t.owner = None
    if t.vn is None:
        t.vn = H("param", I.rand_key())
    return t


@fn("torch.nn.Module")
def nnmodule(I, *a, **k):
    return Unk("module")


@fn("torch.nn.ModuleList", "torch.nn.Sequential")
def modulelist(I, *a):
    o = ExtObj("torch.nn.ModuleList", (), {})
    l = I.to_list(a[0]) if a else []
    o.attrs["mods"] = l if l is not None else []
    o.vn = H("modlist", [vnof(x) for x in o.attrs["mods"]])
    return o


def sequential(I, *a):
    o = ExtObj("torch.nn.Sequential", (), {})
    o.attrs["mods"] = list(a)
    o.vn = H("seq", [vnof(x) for x in a])
    return o


FUNCS["torch.nn.Sequential"] = sequential


@fn("torch.Size")
def tsize(I, x=()):
    l = I.to_list(x)
    return Size(l) if l is not None else Unk("size")


@fn("torch.finfo", "numpy.finfo", "torch.iinfo")
def finfo(I, d=None):
    o = ExtObj("finfo", (d,), {})
    for n in ("eps", "tiny", "smallest_normal", "max"):
        o.attrs[n] = Flt(H("finfo", d, n), "gtc", True)
    o.attrs["min"] = Flt(H("finfo", d, "min"), "nz", True)
    return o


@fn("torch.utils.checkpoint.checkpoint")
def checkpoint(I, f, *a, use_reentrant=None, preserve_rng_state=True, context_fn=None, determinism_check=None, debug=None, **k):
    if use_reentrant is not False:
        # reentrant checkpointing tracks gradients only through tensors passed positionally
        if k:
            I.error("ValueError", "Unexpected keyword arguments: " + ",".join(k), "signature")
    r = I.call(f, list(a), k)
    if use_reentrant is not False:
        have = any(isinstance(x, T) and x.grad for x in a)
        if not have:
            outs = r if isinstance(r, (tuple, list)) else [r]
            for x in outs:
                if isinstance(x, T) and x.grad:
                    x.grad = False
                    x.sev = dict(x.sev)
                    x.sev[I.site()] = "full"
    return r


@fn("torch.manual_seed")
def mseed(I, *a):
    I.event("global_effect", "torch.manual_seed")


@fn("torch.jit.script", "torch.jit.trace", "torch.compile", "torch.jit.ignore")
def jit(I, f=None, *a, **k):
    return f


@fn("torch.load")
def tload(I, f, *a, **k):
    return V.torch_load(I, f, *a, **k)


@fn("torch.save")
def tsave(I, obj, f, *a, **k):
    if isinstance(obj, ExtObj) and obj.cls == "state" and I.vfs is not None and V.pstr(f) is not None:
        V.write(I, f, obj.args[0])
        return None
    I.event("file_write", V.pstr(f), "torch.save")
    return None


@fn("scipy.signal.get_window", "scipy.signal.windows.get_window")
def get_window(I, window, Nx, fftbins=True):
    t = T([Nx], F64, "cpu") if intlike(Nx) else T(None, F64, "cpu")
    t.kind = "ndarray"
    t.vn = H("get_window", window, Nx, fftbins)
    t.lo, t.hi = "unk", True
    t.attrs = {"window": (vnof(window), fftbins)}
    I.event("window", window, Nx, fftbins)
    return t


def torch_window(name):
    def f(I, window_length, periodic=True, *a, dtype=None, device=None, **k):
        t = T([window_length], dtype or I.default_dtype, TO.dev_of(I, device)) if intlike(window_length) else T(None, dtype or I.default_dtype, "cpu")
        t.vn = H("get_window", name, window_length, periodic)
        t.lo, t.hi = "unk", True
        t.attrs = {"window": (name, periodic)}
        I.event("window", name, window_length, periodic)
        return t
    return f


for _w, _nm in (("hann_window", "hann"), ("hamming_window", "hamming"), ("blackman_window", "blackman"), ("bartlett_window", "bartlett"), ("kaiser_window", "kaiser")):
    FUNCS["torch." + _w] = torch_window(_nm)


# ---- math / numpy
def math_call(I, name, args):
    if all(isinstance(x, NUM) or (isinstance(x, (list, tuple)) and concrete(x)) for x in args):
        f = getattr(math, name, None)
        if f is None:
            I.error("AttributeError", "module 'math' has no attribute %r" % name, "attr")
        try:
            return f(*args)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError) as e:
            I.error(type(e).__name__, str(e), "value")
    if name == "prod" and args:
        l = I.to_list(args[0])
        if l is None and isinstance(args[0], (list, tuple)):
            return Unk("prod")
        p = 1
        for x in l or []:
            p = I.binop("Mult", p, x)
        return p
    if name in ("floor", "ceil", "trunc") and args and isinstance(args[0], Poly):
        return args[0]
    if name in ("floor", "ceil", "trunc", "isqrt", "comb", "gcd", "lcm"):
        return Unk("int", H(name, list(args)))
    if any(isinstance(x, T) for x in args):
        t = [x for x in args if isinstance(x, T)][0]
        return TO.call_op(I, "item", [t], {})
    r = Flt(H("math", name, list(args)), "unk", False)
    if name in ("sqrt", "exp", "fabs") and args:
        la = O.scal_lo(I, args[0])
        r.lo = "gtc" if name == "exp" else (la if la in ("ge0", "gt0", "gtc") else "unk")
    for x in args:
        if isinstance(x, (Flt, Unk)):
            r.data, r.mix = r.data or x.data, r.mix | x.mix
            r.sev = {**r.sev, **x.sev}
    if name in ("isclose", "isfinite", "isnan", "isinf"):
        return BCond(r.vn, r.mix, r.data)
    return r


def numpy_call(I, n, last, args, kwargs):
    if n.startswith("numpy.random."):
        I.event("rng", "numpy")
        return Unk("numpy.random")
    if last in ("prod",) and args and isinstance(args[0], (list, tuple)):
        return math_call(I, "prod", args)
    if all(isinstance(x, NUM) for x in args) and hasattr(math, last) and args:
        return math_call(I, last, args)
    if last in ("sqrt", "log", "log2", "log10", "exp", "ceil", "floor") and args and isinstance(args[0], (Poly, Flt)):
        return math_call(I, last, args)
    if last in ("array", "asarray", "ascontiguousarray") and args:
        if isinstance(args[0], T):
            return args[0]
        r = TO.call_op(I, "tensor", [args[0]], {})
        if isinstance(r, T):
            r.kind = "ndarray"
            if r.dtype is F32:
                r.dtype = F64
        return r
    if last in TO.OPS:
        kw = dict(kwargs)
        r = TO.call_op(I, last, args, kw)
        if isinstance(r, T) and not any(isinstance(x, T) and x.kind != "ndarray" for x in args):
            r.kind = "ndarray"
            if r.dtype is F32 and not any(isinstance(x, T) for x in args):
                r.dtype = F64
        return r
    I.note_unmodelled(n)
    return O.unk_from(I, n, list(args) + list(kwargs.values()))
