"""Checks of the waveform front end, transforms, convolution, source models and helpers."""
from .poly import P, Poly, lower
from .vals import *
from .vals import record_defs, expr
from .interp import Program, explore, Interp
from . import scen, charge as Q
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook, tensor, batch
from .checks import (check, multi, clean, definite_exc, witness, wtext, exc_bad, shape_verdict, roles_verdict, run_all, tensors_of, eq_size, out_dims)
from .helpers import helper_cases, Help, Env

ALGOS = ("tiss", "ip2", "five", "mvdr", "mwf", "gev")
BEAMS = ("mvdr", "mwf", "gev")


class Sep:
    """a waveform separator request"""

    def __init__(self, algo="tiss", nb=1, C=None, nfft=512, hop=None, window=None, model="opaque", opts=None, T_lo=3000, dtype=F32, nmask=2):
        self.__dict__.update(algo=algo, nb=nb, C=C, nfft=nfft, hop=hop, window=window, model=model, opts=dict(opts or {}), T_lo=T_lo, dtype=dtype, nmask=nmask)

    def __repr__(self):
        return "BSSSeparator(%s, n_fft=%s, hop=%s, window=%s%s) batch-rank=%d channels=%s" % (
            self.algo, self.nfft, self.hop, self.window, "".join(", %s=%s" % kv for kv in sorted(self.opts.items(), key=str)), self.nb, self.C or ">=3")

    def sizes(self, I):
        s = S(I)
        I.flags["model_hook"] = mask_hook(None, 2, self.nmask) if self.algo in BEAMS else source_hook()
        self.hopv = s.size("hop", 16) if self.hop == "sym" else self.hop
        if self.nfft == "sym":
            self.nf = s.size("nfft", 16)
            if isinstance(self.hopv, Poly):
                I.facts.add(self.nf - self.hopv)
        else:
            self.nf = self.nfft
            if isinstance(self.hopv, Poly):
                I.facts.add(P(self.nfft) - self.hopv)
        s.b = batch(I, s, self.nb)
        s.size("C", 3, role="chan", val=self.C)
        s.size("T", self.T_lo, role="time")
        if self.nfft == "sym":
            I.facts.add(s.v["T"] - self.nf - self.nf)
        o = {}
        for k, v in self.opts.items():
            if v == "<C":
                v = s.size("Ns", 1, role="src")
                I.facts.add(s.v["C"] - 1 - v)
            elif v == "sym" and k == "proj_back_mic":
                v = I.facts.new_sym("ref", 0)
                I.facts.add(s.v["C"] - 1 - v)
            elif v == "sym":
                v = s.size(k, 1)
            o[k] = v
        s.opts = o
        return s

    def build(self, I, s):
        kw = dict(s.opts)
        if self.hop is not None:
            kw["hop_length"] = self.hopv
        if self.window is not None:
            kw["window"] = self.window
        kw.setdefault("n_iter", 1)
        if self.algo is not None:
            kw["algo"] = self.algo
        if self.model is not None:
            kw["source_model"] = model_obj(I, self.model)
        return I.call(pub(I, "nn.BSSSeparator"), [self.nf], kw)

    def signal(self, I, s, name="x"):
        return tensor(I, name, s.b + [(s.v["C"], "chan"), (s.v["T"], "time")], self.dtype)

    def run(self, I):
        s = self.sizes(I)
        o = self.build(I, s)
        x = self.signal(I, s)
        y = I.call(o, [x], {})
        return y, x, s, o

    def n_out(self, s):
        if self.algo in BEAMS:
            return P(2)
        if self.algo == "five":
            return P(1)
        n = s.opts.get("n_src")
        if self.algo in ("tiss", None) and n is not None:
            return P(n)
        return s.v["C"]


def sep_cases(tier):
    deep = tier == "thorough"
    out = []
    for a in ALGOS:
        for C in ((2,) if a == "ip2" else (None, 2)):
            for nb in ((0, 1, 2, 3) if deep else (0, 1, 2)):
                out.append(Sep(a, nb, C))
            for nfft, hop in (("sym", None), ("sym", "sym"), (512, "sym"), (511, None), (400, 100), (256, 200)):
                out.append(Sep(a, 1, C, nfft, hop))
            out.append(Sep(a, 1, C, 512, 128, "hamming"))
    for n in (None, "<C"):
        for r in ("sym", None, 0):
            out.append(Sep("tiss", 1, None, opts=dict(n_src=n, proj_back_mic=r, n_taps=2, n_delay=1)))
    out.append(Sep("tiss", 1, None, opts=dict(use_dmc=True)))
    for m in ("laplace", "gauss", "nmf"):
        out.append(Sep("tiss", 1, None, model=m))
        out.append(Sep("five", 1, None, model=m))
        out.append(Sep("ip2", 1, 2, model=m))
    return out


@check("C12", "The waveform separator is interpreted end to end (STFT, every algorithm, inverse STFT, length adjustment) with symbolic signal length, "
       "channel count, batch sizes, FFT size and hop, following the frame-count arithmetic of torch.stft / torch.istft (floor divisions).",
       "path-sensitive shape inference with integer arithmetic facts: the output shape must be (batch..., n_src, n_samples) on every path, samples aligned with the input's start")
def c12(prog, R, tier):
    for c in sep_cases(tier):
        ctx = repr(c)
        outs, comp = multi(prog, R, c.run, ctx)
        for o in outs:
            if o.cut:
                R.unk("completes", ctx, o.cut)
                continue
            if o.exc:
                exc_bad(R, "completes", outs, o, ctx)
                continue
            y, x, s, obj = o.value
            want = [P(b[0]) for b in s.b] + [c.n_out(s), s.v["T"]]
            v, why = shape_verdict(o.I, y, want)
            if v is True:
                v, why = roles_verdict(y, [b[1] for b in s.b] + [None, None])
            if v is True:
                R.ok("shape", ctx, y)
            elif v is False and witness(o) is not None and clean(o):
                R.bad("shape", None, why + wtext(o), ctx, key="BSSSeparator:%s" % (why.split(",")[0],))
            else:
                R.unk("shape", ctx, why)
            off = time_offset(o.I, y)
            if off is not None:
                if o.I.facts.prove_eq(off, P(0)):
                    R.ok("aligned", ctx)
                elif o.I.facts.refute_eq(off, P(0)) is not None and witness(o) is not None:
                    R.bad("aligned", None, "output sample n is inverse-transform sample n - (%s): the signal is shifted" % lower(off), ctx, key="BSSSeparator:shift")
                else:
                    R.unk("aligned", ctx, off)


def time_offset(I, y):
    return y.attrs.get("toff") if isinstance(y, T) and y.attrs and "toff" in y.attrs else None


# ---------------------------------------------------------------------------
PAIRKEYS = ("n_fft", "hop", "win", "window", "center", "normalized", "onesided")


def stft_windows(I, kind, nfft, dtype=None):
    if kind is None or isinstance(kind, str) and not kind.startswith(":"):
        return kind, None
    if kind == ":tuple":
        return ("kaiser", 14.0), None
    w = tensor(I, "win", [(P(nfft), "win")], F64 if kind in (":ndarray", ":tensor64") else F32, grad=False)
    if kind == ":ndarray":
        w.kind = "ndarray"
    return w, w


@check("C13", "The STFT object is built and both its transforms interpreted for named, array and tensor windows, literal and symbolic FFT sizes and hops, "
       "and 1 to 4 leading dimensions; the arguments that reach torch.stft and torch.istft are compared by value number.",
       "value numbering: both transforms get the same FFT size, hop, window, centring, normalisation and sidedness, equal to the configured ones; leading axes are kept in order")
def c13(prog, R, tier):
    deep = tier == "thorough"
    todo = []
    for win in (None, "hann", "hamming", "blackman", "bartlett", ":ndarray", ":tensor", ":tensor64"):
        for nfft in (256, "sym"):
            for hop in (None, 64, "sym"):
                for dt in (None, "float64"):
                    if not deep and dt and (hop != 64 or nfft == "sym"):
                        continue
                    for nb in (0, 1, 2, 3) if (win in (None, ":tensor") or deep) and hop != "sym" else (1,):
                        todo.append((win, nfft, hop, dt, nb))

    def scenario(I, win, nfft, hop, dt, nb, device="cpu"):
        s = S(I)
        n = s.size("nfft", 16) if nfft == "sym" else nfft
        h = s.size("hop", 1) if hop == "sym" else hop
        if hop == "sym":
            I.facts.add(P(n) - P(h))
        kw = {}
        w, wt = stft_windows(I, win, n)
        if win is not None:
            kw["window"] = w
        if hop is not None:
            kw["hop_length"] = h
        if dt:
            kw["dtype"] = I.getattr(I.import_module("tvdriver").ns["torch"], dt)
        o = I.call(pub(I, "STFT"), [n], kw)
        if device != "cpu":
            I.call(I.getattr(o, "to"), [device], {})
        b = batch(I, s, nb)
        T_ = s.size("T", 600, role="time")
        if nfft == "sym":
            I.facts.add(T_ - P(n) - P(n))
        x = tensor(I, "x", b + [(T_, "time")], F64 if win in (":ndarray", ":tensor64") or dt else F32, device)
        X = I.call(o, [x], {})
        y = I.call(I.getattr(o, "inv"), [X], {})
        return X, y, x, s, b, n, h, w, o

    for t in todo:
        ctx = "STFT(window=%s, n_fft=%s, hop=%s, dtype=%s) leading=%d" % t
        outs, comp = multi(prog, R, lambda I: scenario(I, *t), ctx)
        for o in outs:
            if o.cut:
                R.unk("completes", ctx, o.cut)
                continue
            if o.exc:
                exc_bad(R, "completes", outs, o, ctx)
                continue
            X, y, x, s, b, n, h, w, obj = o.value
            I = o.I
            F = I.facts.floordiv(P(n), 2) + 1
            for nm, tt, tail in (("forward", X, [F, None]), ("inverse", y, [None])):
                if not isinstance(tt, T) or tt.shape is None:
                    R.unk("leading-axes", ctx, nm)
                    continue
                k = len(b)
                if len(tt.shape) != k + len(tail):
                    R.bad("leading-axes", None, "%s transform returns %d dimensions for %d leading ones" % (nm, len(tt.shape), k), ctx, key="%s:rank" % nm)
                    continue
                v, why = shape_verdict(I, tt, [P(q[0]) for q in b] + [d.size if z is None else z for d, z in zip(tt.shape[k:], tail)])
                if v is True:
                    v, why = roles_verdict(tt, [q[1] for q in b] + [None] * len(tail))
                mixed = [m for m in tt.mix]
                if v is False and witness(o) is not None:
                    R.bad("leading-axes", None, "%s: %s" % (nm, why), ctx, key="%s:shape" % nm)
                elif mixed:
                    R.bad("leading-axes", mixed[0][0], "%s mixes leading dimensions (%s)" % (nm, mixed[0][1]), ctx)
                elif v is True:
                    R.ok("leading-axes", ctx, tt)
                else:
                    R.unk("leading-axes", ctx, why)
            ev = {"stft": [], "istft": []}
            for e in I.events:
                if e[0] in ev:
                    ev[e[0]].append(e)
            if len(ev["stft"]) != 1 or len(ev["istft"]) != 1:
                R.unk("matched", ctx, "transform calls: %d forward, %d inverse" % (len(ev["stft"]), len(ev["istft"])))
                continue
            a, c = ev["stft"][0][2], ev["istft"][0][2]
            good = True
            for key in PAIRKEYS:
                if a[key] != c[key]:
                    good = False
                    R.bad("matched", ev["istft"][0][1], "analysis and synthesis differ in %s: %s / %s" % (key, short(a[key]), short(c[key])), ctx, key="pair:%s" % key)
            if a["n_fft"] != vnof(P(n)) and a["n_fft"] != vnof(lower(P(n))):
                good = False
                R.bad("configured", ev["stft"][0][1], "transform size is not the configured n_fft", ctx, key="n_fft")
            hw = vnof(P(h)) if h is not None else None
            if h is not None and a["hop"] not in (hw, vnof(lower(P(h)))):
                good = False
                R.bad("configured", ev["stft"][0][1], "hop is not the configured hop_length", ctx, key="hop")
            if a["window"] == vnof(None):
                good = False
                R.bad("configured", ev["stft"][0][1], "no window reaches the transform although one is configured", ctx, key="window")
            named = [e for e in I.events if e[0] == "window"]
            want = "hann" if t[0] is None else t[0]
            if isinstance(want, str) and not want.startswith(":") and named and not any(e[2] == want for e in named):
                good = False
                R.bad("configured", named[0][1], "window %r requested, %r used" % (want, named[0][2]), ctx, key="window-name")
            if good:
                R.ok("matched", ctx)
    for win in (None, "hamming", ":ndarray", ":tensor"):
        t = (win, 256, 64, None, 1)
        ctx = "STFT(window=%s) moved to another device" % win
        outs, comp = multi(prog, R, lambda I: scenario(I, *t, device="cuda:0"), ctx)
        for o in outs:
            mixes = [e for e in o.I.events if e[0] == "device_mix"]
            if mixes:
                R.bad("window-moves", mixes[0][1], "the window stays on the CPU when the module moves", ctx)
            elif o.exc:
                exc_bad(R, "completes", outs, o, ctx)
            elif o.value is not None:
                obj = o.value[-1]
                R.ok("window-moves", ctx)
            else:
                R.unk("window-moves", ctx, o.cut)


def short(v):
    return str(v)[:60]


# ---------------------------------------------------------------------------
@check("C15", "FFT convolution is interpreted with symbolic lengths n1, n2 for every mode and every axis position of tensors with up to 4 dimensions; "
       "the analysis follows the transform size, the product of the two spectra, the inverse transform size and the slice taken from it as polynomials in n1, n2.",
       "symbolic index arithmetic: inverse size = both transform sizes >= n1+n2-1, start and length of the returned slice equal the mode's definition, only the requested axis changes; other modes raise")
def c15(prog, R, tier):
    deep = tier == "thorough"
    todo = []
    for nd in (1, 2, 3, 4) if deep else (1, 2, 3):
        for dim in list(range(-nd, nd)):
            for mode in ("full", "same", "valid", None):
                for dt in (F32, F64):
                    if dt is F64 and not deep:
                        continue
                    todo.append((nd, dim, mode, dt))

    def scenario(I, nd, dim, mode, dt, order=None):
        s = S(I)
        ax = dim % nd
        n1, n2 = s.size("n1", 1, role="time"), s.size("n2", 1, role="time2")
        if order == "<":
            I.facts.add(n2 - n1 - 1)
        elif order == ">":
            I.facts.add(n1 - n2)
        d1, d2 = [], []
        for i in range(nd):
            if i == ax:
                d1.append((n1, "time"))
                d2.append((n2, "time2"))
            else:
                z = s.size("B%d" % i, 1, role="b%d" % i)
                d1.append((z, "b%d" % i))
                d2.append((z, "b%d" % i))
        x1, x2 = tensor(I, "x1", d1, dt), tensor(I, "x2", d2, dt)
        kw = {}
        if mode is not None:
            kw["mode"] = mode
        if not (nd == 1 and dim == -1) or True:
            kw["dim"] = dim
        y = I.call(pub(I, "fftconvolve"), [x1, x2], kw)
        return y, n1, n2, ax, d1

    for t in todo:
        nd, dim, mode, dt = t
        for order in ("<", ">"):
            ctx = "fftconvolve(%d-D, dim=%d, mode=%s, n1%sn2) %s" % (nd, dim, mode, order, dt)
            outs, comp = multi(prog, R, lambda I: scenario(I, *t, order=order), ctx)
            for o in outs:
                if o.cut:
                    R.unk("completes", ctx, o.cut)
                    continue
                if witness(o) is None:
                    continue
                if o.exc:
                    exc_bad(R, "completes", outs, o, ctx)
                    continue
                y, n1, n2, ax, d1 = o.value
                conv_verdict(R, o, y, n1, n2, ax, d1, mode or "full", ctx)
    for bad in ("circular", "Full", "", 3):
        ctx = "fftconvolve(mode=%r)" % (bad,)
        outs, comp = multi(prog, R, lambda I: scenario(I, 2, -1, bad, F32), ctx)
        for o in outs:
            if o.exc:
                R.ok("reject-mode", ctx, o.exc)
            elif o.value is not None and clean(o) and witness(o) is not None:
                R.bad("reject-mode", None, "mode %r is accepted" % (bad,), ctx, key="fftconvolve:mode")
            else:
                R.unk("reject-mode", ctx, o.cut)


def conv_verdict(R, o, y, n1, n2, ax, d1, mode, ctx):
    I = o.I
    if not isinstance(y, T) or y.shape is None:
        R.unk("convolution", ctx, y)
        return
    if mode == "full":
        start, length = P(0), n1 + n2 - 1
    elif mode == "same":
        start, length = I.facts.floordiv(n2 - 1, 2), n1
    else:
        mx, mn = I.facts.maximum(n1, n2), I.facts.minimum(n1, n2)
        length = mx - mn + 1
        start = mn - 1
    want = [P(z[0]) if i != ax else length for i, z in enumerate(d1)]
    v, why = shape_verdict(I, y, want)
    if v is True:
        v, why = roles_verdict(y, [z[1] if i != ax else None for i, z in enumerate(d1)])
    if v is False:
        R.bad("shape", None, why + wtext(o), ctx, key="fftconvolve:%s:%s" % (mode, why.split(" of the")[0]))
        return
    R.ok("shape", ctx, y) if v else R.unk("shape", ctx, why)
    if y.mix:
        m = sorted(y.mix, key=str)[0]
        R.bad("other-axes", m[0], "entries of another axis are combined (%s)" % (m[1],), ctx)
    c = y.conv
    if c is None:
        if y.attrs and y.attrs.get("correlation"):
            R.bad("convolution", None, "a spectrum is conjugated: the result is a correlation", ctx, key="fftconvolve:conj")
        else:
            R.unk("convolution", ctx, "not recognised as a product of two spectra")
        return
    sp = c["spec"]
    if sp.get("conj"):
        R.bad("convolution", None, "one spectrum is conjugated: the result is a correlation", ctx, key="fftconvolve:conj")
        return
    N = P(c["N"])
    ok = True
    if len(set(sp["ops"])) == 1:
        R.bad("convolution", None, "an operand is convolved with itself", ctx, key="fftconvolve:self")
        ok = False
    for nm, a, b in (("the transform sizes of the two operands", P(sp["N"]), P(sp["N2"])), ("forward and inverse transform sizes", P(sp["N"]), N)):
        r = eq_size(I, a, b)
        if r is False:
            ok = False
            R.bad("transform-size", None, "%s differ (%s, %s)%s" % (nm, lower(a), lower(b), wtext(o)), ctx, key="fftconvolve:" + nm)
        elif r is None:
            ok = None
    fw = {None: 0.0, "backward": 0.0, "ortho": -0.5, "forward": -1.0}
    iv = {None: -1.0, "backward": -1.0, "ortho": -0.5, "forward": 0.0}
    nf, ni = sp.get("norm"), c.get("norm")
    if isinstance(nf, tuple) and all(z in fw for z in nf) and ni in iv and fw[nf[0]] + fw[nf[1]] + iv[ni] != -1.0:
        ok = False
        R.bad("scale", None, "transform normalisations %s and %s do not cancel: the result is scaled by a power of the transform size" % (nf, ni), ctx, key="fftconvolve:norm")
    need = n1 + n2 - 1
    st = P(c["start"])
    # circular wrap-around corrupts samples below need - N
    if not I.facts.prove_ge0(N - need):
        w = I.facts.refute_ge0(N - need + st)
        if w is not None:
            ok = False
            R.bad("no-wrap", None, "transform size %s is smaller than n1+n2-1: the convolution wraps around%s" % (lower(N), wtext(o)), ctx, key="fftconvolve:wrap")
        else:
            ok = None
    for nm, a, b in (("start", st, start), ("length", P(c["length"]), length)):
        r = eq_size(I, a, b)
        if r is False:
            ok = False
            R.bad("slice-" + nm, None, "mode %s returns samples from %s=%s, expected %s%s" % (mode, nm, lower(a), lower(b), wtext(o)), ctx, key="fftconvolve:%s:%s" % (mode, nm))
        elif r is None:
            ok = None
    if (c["axis"] % len(y.shape)) != ax or sp["axis"] != sp["axis2"]:
        ok = False
        R.bad("axis", None, "the convolution runs along axis %s instead of %d" % (c["axis"], ax), ctx, key="fftconvolve:axis")
    if ok:
        R.ok("convolution", ctx, c)
    elif ok is None:
        R.unk("convolution", ctx, c)


# ---------------------------------------------------------------------------
def pos_bounds(t):
    return t.lo, t.hi


@check("C16", "Every built-in source model and mask network is interpreted on inputs of 0 to 3 leading dimensions (symbolic sizes), random and identically zero; "
       "an interval abstraction (sign, positive floor, upper bound) is propagated to the result.",
       "sign/interval inference: real dtype, documented shape, strictly positive lower bound from a floor or offset, bounded above; mask networks additionally bounded by one")
def c16(prog, R, tier):
    ranks = (0, 1, 2, 3) if tier == "thorough" else (0, 1, 2)
    for h in helper_cases(tier, ranks):
        if not h.tags & {"model", "net"}:
            continue
        for zero in (False, True):
            for dt in (C64,) if h.tags & {"net"} else (C64, C128):
                ctx = "%r %s%s" % (h, dt, " silent" if zero else "")
                outs, comp = multi(prog, R, lambda I: h.run(I, dtype=dt, zero=zero), ctx)
                for o in outs:
                    if o.cut:
                        R.unk("analysed", ctx, o.cut)
                        continue
                    if o.exc:
                        exc_bad(R, "completes", outs, o, ctx)
                        continue
                    t, env = o.value
                    weights_verdict(R, o, h, t, env, ctx, zero)


def weights_verdict(R, o, h, t, env, ctx, zero):
    I, s = o.I, env.s
    if not isinstance(t, T) or t.shape is None:
        R.unk("weights", ctx, t)
        return
    name = h.name
    lead = [P(b[0]) for b in env.b]
    if "model" in h.tags:
        want = lead + [s.v["Ns"], s.v["F"], s.v["N"]]
        roles = [b[1] for b in env.b] + ["src", "freq", "frame"]
    elif "mvdr" in h.tags:
        want = lead + [P(2), P(3), s.v["F"], s.v["N"]]
        roles = None
    else:
        want = lead + [s.v["F"], s.v["N"]]
        roles = None
    v, why = shape_verdict(I, t, want)
    if v is True and roles:
        v, why = roles_verdict(t, roles)
    if v is False and witness(o) is not None:
        R.bad("shape", None, why + wtext(o), ctx, key=name + ":shape")
    elif v:
        R.ok("shape", ctx, t)
    else:
        R.unk("shape", ctx, why)
    if t.dtype is not None and t.dtype.kind != "f":
        R.bad("real", None, "weights have dtype %s" % t.dtype, ctx, key=name)
    if t.lo in ("gt0", "gtc"):
        R.ok("positive", ctx, "lo=%s hi=%s" % (t.lo, t.hi))
    elif t.lo in ("ge0", "any", "nz"):
        R.bad("positive", None, "weights are not kept strictly positive (lower bound class: %s)" % t.lo, ctx, key=name)
    else:
        R.unk("positive", ctx, t.lo)
    if "net" in h.tags and isinstance(t.hi, Aff):
        if t.hi.sup > 1 + 1e-9:
            R.bad("at-most-one", None, "mask values reach %.6g" % t.hi.sup, ctx, key=name)
        elif t.hi.inf <= 0:
            R.bad("positive", None, "mask values reach %.6g" % t.hi.inf, ctx, key=name)
        else:
            R.ok("at-most-one", ctx, "values in (%.6g, %.6g)" % (t.hi.inf, t.hi.sup))
    elif "net" in h.tags:
        R.unk("at-most-one", ctx, "not an affine function of a sigmoid")
    if t.hi:
        R.ok("bounded", ctx)
    elif t.lo in ("gt0", "gtc", "ge0", "any", "nz"):
        R.bad("bounded", None, "weights are not bounded: no floor on the divisor", ctx, key=name)
    else:
        R.unk("bounded", ctx)
    for site, what in sorted(t.nan, key=str):
        R.bad("finite", site, "%s: argument is exactly zero for silent input" % what, ctx)


# ---------------------------------------------------------------------------
@check("C25", "Each rescaling helper is interpreted with the separated signal carrying an arbitrary phase psi(source, frequency) and the reference a phase rho(frequency), "
       "for 0 to 3 leading dimensions; axis tracking records any statistic that combines different batch items, sources or frequencies.",
       "equivariance typing: result shape equals the separated signal's, its character is exactly +rho (psi cancels), and no reduction mixes items, sources or frequencies")
def c25(prog, R, tier):
    ranks = (0, 1, 2, 3) if tier == "thorough" else (0, 1, 2)
    from .helpers import phase_two
    for fname, kw in (("minimum_distortion", {}), ("minimum_distortion", dict(p=2.0)), ("minimum_distortion", dict(p=2.0, q=2.0)),
                      ("minimum_distortion_l2_phase", {}), ("minimum_distortion", dict(p=1.0)), ("minimum_distortion", dict(p=1.0, q=2.0)),
                      ("minimum_distortion", dict(p=0.5, q=1.0)), ("minimum_distortion", dict(model="opaque")),
                      ("minimum_distortion", dict(model="laplace")), ("minimum_distortion", dict(model="opaque", max_iter=2)), ("projection_back", {}), ("scaling.minimum_distortion_l2", {})):
        covariant = True
        lenient = kw.get("p", 2.0) < 2.0 or "model" in kw
        for nb in ranks:
            for dt in (C64, C128):
                ctx = "%s(%s) batch-rank=%d %s" % (fname, kw, nb, dt)
                outs, comp = multi(prog, R, lambda I: (I.flags.update(lenient_abs=lenient, free_loading=fname == "projection_back"), phase_two(I, fname, kw, nb, dt, covariant))[1], ctx)
                for o in outs:
                    if o.cut:
                        R.unk("analysed", ctx, o.cut)
                        continue
                    if o.exc:
                        exc_bad(R, "completes", outs, o, ctx)
                        continue
                    t, Y, s, b = o.value
                    I = o.I
                    v, why = shape_verdict(I, t, [d.size for d in Y.shape])
                    if v is True:
                        v, why = roles_verdict(t, [x[1] for x in b] + ["src", "freq", "frame"])
                    nm = fname + str(sorted(kw))
                    if v is False and witness(o) is not None:
                        R.bad("shape", None, why + wtext(o), ctx, key=nm)
                        continue
                    R.ok("shape", ctx, t) if v else R.unk("shape", ctx, why)
                    if t.mix and not lenient:
                        m = sorted(t.mix, key=str)[0]
                        R.bad("separate", m[0], "data of different batch items is combined (%s)" % (m[1],), ctx)
                    if not covariant:
                        continue
                    if Q.is_bad(t):
                        R.bad("covariant", t.qst[1], t.qst[2], ctx)
                    elif t.qst != "ok" or t.comp or t.ri or t.qe:
                        R.unk("covariant", ctx, Q.show(t))
                    else:
                        charged = [a.q for d in t.shape for a in d.atoms if a.q and not Q.is_zero_q(I, a.q)]
                        if not charged and Q.eq_q(I, t.qs, ((("rho", P(0)), 1),)):
                            R.ok("covariant", ctx, t)
                        else:
                            R.bad("covariant", None, "result transforms as %s, expected +rho" % Q.show(t), ctx, key=nm + Q.show(t))
    from .checks12 import rescaling_exact
    rescaling_exact(prog, R, tier)


# ---------------------------------------------------------------------------
@check("C26", "select_most_energetic is interpreted for every pair of distinct selection and reduction axes of 2- to 4-dimensional inputs with symbolic sizes; "
       "the analysis follows which axes the power statistic, the sort and the gather range over and whether the gathered values are the input's.",
       "provenance and axis tracking: the result is a gather of the unmodified input along the selection axis, with the first num entries of a descending argsort of the power of the same item")
def c26(prog, R, tier):
    from .helpers import selection
    record_defs()
    deep = tier == "thorough"
    for nd in (2, 3, 4) if deep else (2, 3):
        for dim in range(-nd, 0):
            for red in range(-nd, 0):
                if dim == red:
                    continue
                for sign in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    d = dim + nd * sign[0]
                    r = red + nd * sign[1]
                    for dt in (F32, C64):
                        for num in (1, 2, "sym"):
                            if not deep and (num == 1 or (dt is C64 and sign != (0, 0))):
                                continue
                            ctx = "select_most_energetic(%d-D, num=%s, dim=%d, dim_reduc=%d) %s" % (nd, num, d, r, dt)
                            outs, comp = multi(prog, R, lambda I: selection(I, nd, num, d, r, dt), ctx)
                            for o in outs:
                                sel_verdict(R, outs, o, ctx, nd, d % nd, r % nd)


def sel_verdict(R, outs, o, ctx, nd, ax, rx):
    if o.cut:
        R.unk("analysed", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "completes", outs, o, ctx)
        return
    t, x, num = o.value
    I = o.I
    if not isinstance(t, T) or t.shape is None:
        R.unk("shape", ctx)
        return
    want = [d.size if i != ax else P(num) for i, d in enumerate(x.shape)]
    v, why = shape_verdict(I, t, want)
    if v is False and witness(o) is not None:
        R.bad("shape", None, why + wtext(o), ctx, key="select:shape:%s" % why.split(" of the")[0])
        return
    R.ok("shape", ctx, t) if v else R.unk("shape", ctx, why)
    if t.dtype is not x.dtype:
        R.bad("unmodified", None, "result dtype %s differs from the input's %s" % (t.dtype, x.dtype), ctx, key="select:dtype")
        return
    g = t.attrs.get("gather") if t.attrs else None
    if g is None:
        R.unk("provenance", ctx, "not a gather of the input")
        return
    src, axis, index = g
    if src.vn != x.vn or any(z.stor != x.stor for z in (src,) if x.stor):
        if rank_chain(I, src.vn, x.vn, dry=True) == "changed":
            R.bad("unmodified", None, "the gathered values are not the unmodified input", ctx, key="select:source")
        elif [[a.role for a in z.atoms] for z in src.shape] == [[a.role for a in z.atoms] for z in x.shape] and strip_views(src.vn) == x.vn:
            R.ok("unmodified", ctx)
        else:
            R.unk("unmodified", ctx, "gather of a derived tensor")
            return
    srcroles = [[a.role for a in z.atoms] for z in src.shape][axis]
    want_role = [a.role for a in x.shape[ax].atoms]
    if srcroles != want_role:
        R.bad("selection-axis", None, "gathers along axis of %s instead of %s" % (srcroles, want_role), ctx, key="select:axis")
        return
    if not index.attrs or "argsort" not in index.attrs:
        z = index.attrs.get("sorted") if index.attrs else None
        if z is not None and z[0].attrs and "argsort" in z[0].attrs:
            R.bad("ordering", None, "the selected indices are sorted by position: the order by power is lost", ctx, key="select:resort")
            return
        R.unk("ordering", ctx, "index provenance unknown")
        return
    ranked, d2, desc = index.attrs["argsort"]
    bad, unk = None, None
    rroles = [[a.role for a in z.atoms] for z in ranked.shape]
    have = set(r for z in rroles for r in z)
    for roles, st in index.attrs.get("starts", ()):
        if list(roles) == want_role:
            v = eq_size(I, P(st), P(0))
            if v is False:
                bad = "the selection does not start with the loudest (offset %s)" % (lower(P(st)),)
            elif v is None:
                unk = "offset of the selection"
        else:
            v = eq_size(I, P(st), P(0))
            if v is not True:
                bad = "the index of one item of axis %s is used for others" % (list(roles),)
    if rroles[d2] != want_role and not bad:
        bad = "powers are ranked along axis %s instead of %s" % (rroles[d2], want_role)
    others = [a.role for i, z in enumerate(x.shape) for a in z.atoms if i not in (ax, rx)]
    red = [a.role for a in x.shape[rx].atoms]
    if not bad:
        miss = [r for r in others if r not in have]
        if any(r in have for r in red):
            bad = "the power is not accumulated over axis %d" % rx
        elif miss:
            bad = "the power is also accumulated over axis %s: not separate per item" % miss
    direction, kind = rank_chain(I, ranked.vn, x.vn)
    if not bad:
        if kind == "other":
            bad = "the ranked quantity is not a function of the power that keeps its order"
        elif kind is None or desc is None:
            unk = "ranked quantity not recognised"
        elif (direction > 0) != bool(desc):
            bad = "signals are ordered by increasing power"
    if bad:
        R.bad("ordering", None, bad, ctx, key="select:%s" % bad.split(" (")[0])
    elif unk:
        R.unk("ordering", ctx, unk)
    else:
        R.ok("ordering", ctx, "rank %s, descending=%s" % (kind, desc))


VIEWS = ("perm", "bcast", "transpose", "permute", "swapaxes", "swapdims", "movedim", "moveaxis", "squeeze", "unsqueeze", "expand", "expand_as", "broadcast_to", "broadcast_tensors",
         "clone", "contiguous", "detach", "t", "reshape", "view", "flatten", "unflatten", "getitem", "cast", "double", "float", "to", "type", "nan_to_num")
MONO = ("sqrt", "log", "log10", "log1p", "log2", "exp")
SQ = ("square", "pow", "mul", "real", "mag_sq", "abs", "mag", "add", "__pow__")


def opargs(e):
    """positional operands of a value-number definition"""
    if e is None:
        return None, []
    out = []
    for a in e[1:]:
        if isinstance(a, tuple) and a and a[0] == "t":
            out += list(a[1:])
        elif isinstance(a, tuple) and a and a[0] == "d":
            out += [("kw", k, v) for k, v in a[1:]]
        else:
            out.append(a)
    return e[0], out


def strip_views(vn):
    while True:
        e = expr(vn)
        op, a = opargs(e)
        if op in ("getitem",) or op not in VIEWS:
            return vn
        vn = a[0] if a and isinstance(a[0], str) else None
        if vn is None:
            return None


def num(v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "i":
        return float(v[1])
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "f":
        return float(v[1])
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "kw":
        return num(v[2])
    return None


def magnitude_power(vn, xvn):
    """exponent p when vn is |x|**p elementwise, else None"""
    if vn == xvn:
        return None
    op, a = opargs(expr(vn))
    if op is None:
        return None
    a0 = a[0] if a else None
    if op in ("abs", "mag"):
        return 1.0 if strip_views(a0) == xvn else magnitude_power(a0, xvn)
    if op in VIEWS and op != "getitem":
        return magnitude_power(a0, xvn)
    if op in ("square",):
        p = magnitude_power(a0, xvn)
        return 2 * p if p else (2.0 if strip_views(a0) == xvn else None)
    if op in ("pow", "__pow__"):
        n = num(a[1]) if len(a) > 1 else None
        p = magnitude_power(a0, xvn)
        if n is None or n <= 0:
            return None
        return n * p if p else (n if n % 2 == 0 and strip_views(a0) == xvn else None)
    if op == "real":
        return magnitude_power(a0, xvn)
    if op in ("mul", "multiply"):
        if len(a) == 2 and all(isinstance(z, str) for z in a):
            if a[0] == a[1]:
                p = magnitude_power(a[0], xvn)
                return 2 * p if p else (2.0 if strip_views(a[0]) == xvn else None)
            b = [strip_views(z) for z in a]
            cj = [opargs(expr(z)) for z in b]
            for i in (0, 1):
                if b[i] == xvn and cj[1 - i][0] in ("conj", "conj_physical") and strip_views(cj[1 - i][1][0]) == xvn:
                    return 2.0
        return None
    if op == "add" and len(a) == 2:
        parts = []
        for z in a:
            o, q = opargs(expr(z))
            base = None
            if o in ("square",) or o in ("pow", "__pow__") and len(q) > 1 and num(q[1]) == 2:
                base = q[0]
            elif o in ("mul", "multiply") and len(q) == 2 and q[0] == q[1]:
                base = q[0]
            if base is None:
                return None
            o2, q2 = opargs(expr(base))
            if o2 not in ("real", "imag") or strip_views(q2[0]) != xvn:
                return None
            parts.append(o2)
        return 2.0 if sorted(parts) == ["imag", "real"] else None
    return None


def rank_chain(I, vn, xvn, dry=False):
    """(direction, kind): how the ranked value depends on the power; kind 'power', 'other' or None"""
    if dry:
        b = strip_views(vn)
        op, a = opargs(expr(b))
        return "changed" if op in ("abs", "square", "mul", "div", "add", "sub", "neg", "conj", "real", "pow", "sqrt", "mag") else None
    d = 1
    for _ in range(40):
        op, a = opargs(expr(vn))
        if op is None:
            return d, None
        a0 = a[0] if a and isinstance(a[0], str) else None
        if op in VIEWS:
            vn = a0
            continue
        if op == "neg":
            d, vn = -d, a0
            continue
        if op in MONO or op in ("add", "sub") and len(a) == 2 and num(a[1]) is not None:
            vn = a0
            continue
        if op in ("clamp", "clip", "clamp_min"):
            return d, None
        if op in ("mul", "div", "multiply") and len(a) == 2:
            n = [num(z) for z in a]
            if n[1] is not None and n[1] != 0:
                d, vn = (d if n[1] > 0 else -d), a0
                continue
            if op == "mul" and n[0]:
                d, vn = (d if n[0] > 0 else -d), a[1]
                continue
            if op == "div" and n[0]:
                d, vn = (-d if n[0] > 0 else d), a[1]
                continue
            p = magnitude_power(vn, xvn)
            return d, None
        if op in ("square", "pow") and a0:
            n = 2.0 if op == "square" else num(a[1]) if len(a) > 1 else None
            if n and magnitude_power(vn, xvn) is None:
                d, vn = (d if n > 0 else -d), a0
                continue
            return d, None
        if op == "reciprocal":
            d, vn = -d, a0
            continue
        if op in ("mean", "sum", "nansum", "nanmean"):
            p = magnitude_power(a0, xvn)
            if p is None:
                return d, "other" if strip_views(a0) == xvn else None
            return d, "power" if p == 2.0 else "other"
        if op in ("norm", "linalg_norm", "vector_norm"):
            if strip_views(a0) != xvn and magnitude_power(a0, xvn) != 1.0:
                return d, None
            ps = [num(z) for z in a[1:2]] + [num(z) for z in a[1:] if isinstance(z, tuple) and z[0] == "kw" and z[1] in ("p", "ord")]
            kws = [z for z in a[1:] if isinstance(z, tuple) and z[0] == "kw"]
            pos = [z for z in a[1:] if not (isinstance(z, tuple) and z[0] == "kw")]
            p = num(pos[0]) if pos else None
            for z in kws:
                if z[1] in ("p", "ord"):
                    p = num(z[2])
            return d, "power" if p in (None, 2.0) else "other"
        if op in ("max", "amax", "median", "amin", "min", "var", "std"):
            return d, "other"
        return d, None
    return d, None
