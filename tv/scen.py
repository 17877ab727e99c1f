"""Scenario building blocks: symbolic inputs, opaque models, calls of the public API."""
from .poly import P, Poly, lower
from .vals import *
from . import charge as Q

DRIVER = '''
import torch

class OpaqueModel(torch.nn.Module):
    """a source model / mask network about which nothing is known"""
    def __init__(self):
        super().__init__()
    def forward(self, X):
        return __tv_model__(self, X)

class PlainModel:
    """a callable that is not a torch module"""
    def __call__(self, X):
        return __tv_model__(self, X)

class StatefulModel(torch.nn.Module):
    """a source model with state that must be discarded for every new signal"""
    def __init__(self):
        super().__init__()
        self.state = None
        self.reset()
    def reset(self):
        self.state = None
    def forward(self, X):
        if self.state is None:
            self.state = torch.mean(torch.abs(X).detach())
        Y = __tv_model__(self, X)
        Z = Y * self.state
        self.state = torch.mean(Z.detach())
        return Z
'''


def install(prog):
    if "tvdriver" not in prog.trees:
        prog.add_virtual("tvdriver", DRIVER)


def pub(I, name, mod="torchiva"):
    """public object by dotted name below the package"""
    m = I.import_module(mod)
    cur = m
    for part in name.split("."):
        cur = I.getattr(cur, part)
    return cur


class S:
    """the symbolic sizes of a scenario"""

    def __init__(self, I, **kw):
        self.I = I
        self.roles = {}
        I.flags["size_roles"] = self.roles
        self.v = {}

    def size(self, name, lo=1, hi=None, role=None, val=None):
        if val is not None:
            p = P(val)
        else:
            p = self.I.facts.new_sym(name, lo, hi)
        self.v[name] = p
        if role and not p.is_const():
            self.roles[p] = role
        return p


def tensor(I, name, dims, dtype, device="cpu", caller=True, data=True, grad=True, lo="any", zero=False, phi=None, lag=False):
    """dims: list of (size, role[, q])"""
    shp = []
    for d in dims:
        size, role = d[0], d[1]
        q = d[2] if len(d) > 2 else ()
        size = P(size)
        if size.is_const() and size.const() == 1:
            shp.append(Dim(()))
        else:
            shp.append(Dim((Atom(size, role, q),)))
    t = T([], dtype, device)
    t.shape = tuple(shp)
    t.data = data
    t.grad = grad
    t.vn = H("input", name, tuple((vnof(lower(d[0])),) for d in dims), dtype.name if dtype else None)
    if caller:
        t.stor = frozenset([name])
    t.lo = lo
    if zero:
        t.qst = "zero"
        t.val = 0
    if lag:
        t.lags = frozenset([(0, 0)])
    return t


def batch(I, sc, n, ones=()):
    out = []
    for i in range(n):
        if i in ones:
            out.append((P(1), None))
        else:
            s = sc.size("B%d" % i, 1, role="b%d" % i)
            out.append((s, "b%d" % i))
    return out


def phi_q(off=0):
    return ((("phi", P(off)), 1),)


def stft_input(I, sc, nb=0, n_chan=None, dtype=C64, device="cpu", name="X", zero=False, phase=False, lag=False, chan_lo=2,
               chan_role="chan", ones=(), bdims=None, frames=None, freq=None):
    b = bdims if bdims is not None else batch(I, sc, nb, ones)
    C = sc.size("C", chan_lo, role=chan_role, val=n_chan) if n_chan is None or not isinstance(n_chan, Poly) else n_chan
    F = sc.v.get("F") if freq is None and "F" in sc.v else sc.size("F", 2, role="freq", val=freq)
    N = sc.size("N" if "N" not in sc.v else "N_" + name, 4, role="frame", val=frames)
    q = phi_q() if phase else ()
    if phase:
        I.groups["phi"] = ("freq",)
    dims = b + [(C, chan_role, q), (F, "freq"), (N, "frame")]
    t = tensor(I, name, dims, dtype, device, zero=zero, lag=lag)
    I.flags["n_frames"] = N
    sc.b = b
    return t


def model_obj(I, kind, device="cpu"):
    """a source model instance; kind: laplace gauss nmf<k> opaque plain stateful"""
    if kind == "laplace":
        return I.call(pub(I, "models.LaplaceModel"), [], {})
    if kind == "gauss":
        return I.call(pub(I, "models.GaussModel"), [], {})
    if kind == "nmf":
        return I.call(pub(I, "models.NMFModel"), [], {})
    d = I.import_module("tvdriver")
    cls = {"opaque": "OpaqueModel", "plain": "PlainModel", "stateful": "StatefulModel"}[kind]
    o = I.call(d.ns[cls], [], {})
    return o


def source_hook(positive=True, gtc=True):
    """behaviour of an opaque source model: real positive weights, one per element of its input,
    acting on each (..., freq, frame) map separately, blind to the phase of its input"""
    def hook(I, self, X, *a, **k):
        if not isinstance(X, T):
            return Unk("model of non tensor")
        out = T([], X.dtype.real() if X.dtype else None, X.device)
        out.shape = None if X.shape is None else tuple(Dim(at.rep(q=(), d=None) for at in d.atoms) for d in X.shape)
        model_flags(I, X, out)
        out.vn = H("model", getattr(self, "label", "m"), X)
        I.event("model_call", out)
        return out
    return hook


def wpe_hook():
    """weights of one (..., freq, frame) map per multichannel signal, as the default weights of WPE"""
    def hook(I, self, X, *a, **k):
        if not isinstance(X, T) or X.shape is None or len(X.shape) < 3:
            return Unk("weights of unknown input")
        out = T([], X.dtype.real() if X.dtype else None, X.device)
        sh = tuple(Dim(at.rep(q=(), d=None) for at in d.atoms) for d in X.shape)
        out.shape = sh[:-3] + sh[-2:]
        model_flags(I, X, out)
        out.vn = H("wpemodel", getattr(self, "label", "m"), X)
        I.event("model_call", out)
        return out
    return hook


def mask_hook(I0, n_src, n_masks):
    """opaque mask network: one spectrogram (..., freq, frame) -> (..., n_src, n_masks, freq, frame), values in (0, 1]"""
    def hook(I, self, X, *a, **k):
        if not isinstance(X, T) or X.shape is None:
            return Unk("mask model of unknown input")
        out = T([], X.dtype.real() if X.dtype else None, X.device)
        sh = tuple(Dim(at.rep(q=(), d=None) for at in d.atoms) for d in X.shape)
        out.shape = sh[:-2] + (Dim.of(n_src, "src"), Dim.of(n_masks, "mask")) + sh[-2:]
        model_flags(I, X, out)
        out.vn = H("mask", getattr(self, "label", "m"), n_src, n_masks, X)
        I.event("model_call", out)
        return out
    return hook


def model_flags(I, X, out):
    out.data, out.mix, out.nan = X.data, X.mix, X.nan
    out.grad = not I.nograd
    out.sev = dict(X.sev)
    if I.nograd:
        out.sev[I.site()] = "full"
    out.lo, out.hi = "gtc", True
    out.taint = X.taint
    if I.flags.get("lenient_abs"):
        pass
    elif Q.is_bad(X):
        out.qst = X.qst
    elif X.qst == "unk":
        out.qst = "unk"
