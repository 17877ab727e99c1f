"""Scenarios for the source models, transforms, rescaling and linear-algebra helpers."""
from .poly import P, Poly, lower
from .vals import *
from . import scen
from .scen import S, pub, tensor, batch, phi_q

REAL = {"complex64": F32, "complex128": F64}


class Help:
    """one helper call; build(I, s, env) -> (callable, args, kwargs)"""

    def __init__(self, name, label, build, nb=1, tags=()):
        self.name, self.label, self.build, self.nb, self.tags = name, label, build, nb, set(tags)

    def __repr__(self):
        return "%s batch-rank=%d" % (self.label, self.nb)

    def run(self, I, dtype=C64, device="cpu", zero=False, phase=False, training=False):
        s = S(I)
        env = Env(I, s, self.nb, dtype, device, zero, phase)
        I.flags["model_hook"] = scen.source_hook()
        f, a, k = self.build(I, s, env)
        r = I.call(f, a, k)
        env.result = r
        return r, env


class Env:
    def __init__(self, I, s, nb, dtype, device, zero, phase):
        self.I, self.s, self.nb, self.dtype, self.device, self.zero, self.phase = I, s, nb, dtype, device, zero, phase
        self.b = batch(I, s, nb)
        self.args = []

    def size(self, name, lo, role, val=None):
        if name in self.s.v:
            return self.s.v[name]
        return self.s.size(name, lo, role=role, val=val)

    def t(self, name, dims, real=False, lo="any", zero=None, q=None):
        dt = REAL.get(self.dtype.name, self.dtype) if real else self.dtype
        x = tensor(self.I, name, dims, dt, self.device, zero=self.zero if zero is None else zero, lo=lo)
        self.args.append(x)
        return x

    def spec(self, name="X", src="src", lo=1):
        F, N = self.size("F", 2, "freq"), self.size("N", 4, "frame")
        d = list(self.b)
        if src:
            d = d + [(self.size("Ns", lo, src), src)]
        return self.t(name, d + [(F, "freq"), (N, "frame")])

    def mat(self, name, C=None, lo=3, herm=False, cols=None):
        F = self.size("F", 2, "freq")
        C = self.size("C", lo, "chan") if C is None else P(C)
        x = self.t(name, self.b + [(F, "freq"), (C, "chan"), ((C, "chan") if cols is None else (P(cols), "col"))])
        return x

    def to(self, o):
        if self.device != "cpu":
            self.I.call(self.I.getattr(o, "to"), [self.device], {})
        if self.dtype is C128 and False:
            self.I.call(self.I.getattr(o, "double"), [], {})
        return o


def L(name):
    return lambda I: pub(I, "linalg." + name)


def helper_cases(tier="quick", ranks=(0, 1, 2)):
    out = []

    def add(name, label, build, tags=(), only=None):
        for nb in (only or ranks):
            out.append(Help(name, label, build, nb, tags))

    # ---- rescaling
    def two(fname, **kw):
        def b(I, s, e):
            Y = e.spec("Y", lo=2)
            ref = e.spec("ref", src=None)
            if fname == "projection_back":
                I.facts.add(s.v["N"] - s.v["Ns"])
            return pub(I, fname), [Y, ref], kw
        return b
    add("projection_back", "projection_back(Y, ref)", two("projection_back"), ("scale", "pb"))
    add("minimum_distortion", "minimum_distortion(Y, ref)", two("minimum_distortion"), ("scale", "phase"))
    add("minimum_distortion_l2_phase", "minimum_distortion_l2_phase(Y, ref)", two("minimum_distortion_l2_phase"), ("scale", "phase"))
    add("minimum_distortion", "minimum_distortion(Y, ref, p=1)", two("minimum_distortion", p=1.0), ("scale", "iter"))
    add("minimum_distortion", "minimum_distortion(Y, ref, p=1, q=2)", two("minimum_distortion", p=1.0, q=2.0), ("scale", "iter"))
    add("minimum_distortion", "minimum_distortion(Y, ref, p=2, q=2)", two("minimum_distortion", p=2.0, q=2.0), ("scale", "phase"))

    def withmodel(kind):
        def b(I, s, e):
            Y, ref = e.spec("Y", lo=2), e.spec("ref", src=None)
            m = e.to(scen.model_obj(I, kind))
            return pub(I, "minimum_distortion"), [Y, ref], {"model": m}
        return b
    for k in ("opaque", "laplace"):
        add("minimum_distortion", "minimum_distortion(Y, ref, model=%s)" % k, withmodel(k), ("scale", "iter"))

    # ---- source models
    def model(cls, **kw):
        def b(I, s, e):
            m = e.to(I.call(pub(I, "models." + cls), [], kw))
            X = e.spec("X")
            return m, [X], {}
        return b
    for c in ("LaplaceModel", "GaussModel", "NMFModel"):
        add(c, "%s()(X)" % c, model(c), ("model",))
        add(c, "%s(eps=)(X)" % c, model(c, eps=1e-3), ("model",))

    def model2(I, s, e):
        """two successive calls: the second uses the updated state"""
        m = e.to(I.call(pub(I, "models.NMFModel"), [], {}))
        X = e.spec("X")
        I.call(m, [X], {})
        return m, [X], {}
    add("NMFModel", "NMFModel second call", model2, ("model",))

    def realmodel(cls):
        def b(I, s, e):
            m = e.to(I.call(pub(I, "models." + cls), [], {}))
            d = list(e.b) + [(e.size("Ns", 1, "src"), "src"), (e.size("F", 2, "freq"), "freq"), (e.size("N", 4, "frame"), "frame")]
            return m, [e.t("X", d, real=True)], {}
        return b
    for c in ("LaplaceModel", "GaussModel", "NMFModel"):
        add(c, "%s()(real X)" % c, realmodel(c), ("model", "real"))

    def net(cls, kws):
        def b(I, s, e):
            F = e.size("F", 16, "freq", val=kws.get("__F__", 33))
            e.size("N", 16, "frame")
            kw = {k: v for k, v in kws.items() if not k.startswith("__")}
            m = I.call(pub(I, "models." + cls), [], kw)
            e.to(m)
            I.call(I.getattr(m, "eval"), [], {})
            d = list(e.b) + [(F, "freq"), (e.s.v["N"], "frame")]
            X = e.t("X", d)
            return m, [X], {}
        return b
    for ms in (True, False):
        for ls in (True, False):
            add("GLUMask", "GLUMask(mag_spec=%s, log_spec=%s)" % (ms, ls), net("GLUMask", dict(n_freq=33, n_bottleneck=16, mag_spec=ms, log_spec=ls)), ("net",))
            add("BLSTMMask", "BLSTMMask(mag_spec=%s, log_spec=%s)" % (ms, ls), net("BLSTMMask", dict(n_freq=33, n_bottleneck=16, mag_spec=ms, log_spec=ls)), ("net",))
    add("SimpleModel", "SimpleModel", net("SimpleModel", dict(n_freq=33, n_mels=16)), ("net",))
    add("MaskMVDRSupport", "MaskMVDRSupport", net("MaskMVDRSupport", dict(n_input=33, n_src=2, n_masks=3)), ("net", "mvdr"))

    # ---- linear algebra
    def lin(fname, *mats, **kw):
        def b(I, s, e):
            a = [m(e) for m in mats]
            return pub(I, "linalg." + fname), a, dict(kw)
        return b
    A = lambda e: e.mat("A")
    B = lambda e: e.mat("B")
    A2 = lambda e: e.mat("A", C=2)
    B2 = lambda e: e.mat("B", C=2)
    rhs = lambda e: e.mat("b", cols=4)
    add("linalg.solve_loaded", "linalg.solve_loaded(A, B)", lin("solve_loaded", A, rhs), ("lin",))
    add("linalg.solve_loaded_general", "linalg.solve_loaded_general(A, B)", lin("solve_loaded_general", A, rhs), ("lin",))
    add("linalg.inv_loaded", "linalg.inv_loaded(A)", lin("inv_loaded", A), ("lin",))
    add("linalg.inv_2x2", "linalg.inv_2x2(A)", lin("inv_2x2", A2), ("lin",))
    add("linalg.eigh", "linalg.eigh(A)", lin("eigh", A), ("lin",))
    add("linalg.eigh", "linalg.eigh(A, B)", lin("eigh", A, B), ("lin",))
    add("linalg.eigh", "linalg.eigh(A) 2x2", lin("eigh", A2), ("lin",))
    add("linalg.eigh", "linalg.eigh(A, B) 2x2", lin("eigh", A2, B2), ("lin",))
    add("linalg.eigh_2x2", "linalg.eigh_2x2(A)", lin("eigh_2x2", A2), ("lin",))
    add("linalg.eigh_2x2", "linalg.eigh_2x2(A, B)", lin("eigh_2x2", A2, B2), ("lin",))
    add("linalg.bmm", "linalg.bmm(A, B)", lin("bmm", A, B), ("lin",))
    add("linalg.hermite", "linalg.hermite(A)", lin("hermite", A), ("lin", "view"))
    add("linalg.mag_sq", "linalg.mag_sq(A)", lin("mag_sq", A), ("lin",))
    add("linalg.mag", "linalg.mag(A)", lin("mag", A), ("lin",))
    add("linalg.multiply", "linalg.multiply(A, B)", lin("multiply", A, B), ("lin",))
    add("linalg.multiply", "linalg.multiply(real, A)", lin("multiply", lambda e: realmat(e, "R"), A), ("lin",))
    add("linalg.multiply", "linalg.multiply(A, real)", lin("multiply", A, lambda e: realmat(e, "R")), ("lin",))
    add("linalg.divide", "linalg.divide(A, real)", lin("divide", A, lambda e: realmat(e, "R")), ("lin",))
    add("linalg.hankel_view", "linalg.hankel_view(X, 3)", lambda I, s, e: (pub(I, "linalg.hankel_view"), [e.spec("X"), 3], {}), ("lin", "view"))

    R = lambda e: realmat(e, "R", lo="any")
    R2 = lambda e: realmat(e, "R", lo="any", C=2)
    S2 = lambda e: realmat(e, "S", lo="any", C=2)
    add("linalg.eigh_2x2", "linalg.eigh_2x2(real A)", lin("eigh_2x2", R2), ("lin", "real"))
    add("linalg.eigh_2x2", "linalg.eigh_2x2(real A, real B)", lin("eigh_2x2", R2, S2), ("lin", "real"))
    add("linalg.inv_2x2", "linalg.inv_2x2(real A)", lin("inv_2x2", R2), ("lin", "real"))
    add("linalg.eigh", "linalg.eigh(real A)", lin("eigh", R), ("lin", "real"))
    add("linalg.mag_sq", "linalg.mag_sq(real A)", lin("mag_sq", R), ("lin", "real"))
    add("linalg.mag", "linalg.mag(real A)", lin("mag", R), ("lin", "real"))
    add("linalg.hermite", "linalg.hermite(real A)", lin("hermite", R), ("lin", "view", "real"))
    add("linalg.multiply", "linalg.multiply(real, real)", lin("multiply", R, lambda e: realmat(e, "R2", lo="any")), ("lin", "real"))
    add("linalg.divide", "linalg.divide(real, real)", lin("divide", R, lambda e: realmat(e, "R2")), ("lin", "real"))
    add("linalg.solve_loaded", "linalg.solve_loaded(real A, real B)", lin("solve_loaded", R, lambda e: realmat(e, "R2", lo="any")), ("lin", "real"))
    add("linalg.inv_loaded", "linalg.inv_loaded(real A)", lin("inv_loaded", R), ("lin", "real"))
    add("linalg.diagonal_loading", "linalg.diagonal_loading(A, d)", lambda I, s, e: (pub(I, "linalg.diagonal_loading"), [e.mat("A"), vec(e, "d")], {}), ("lin",))

    # ---- selection
    def sel(dim, red):
        def b(I, s, e):
            d = list(e.b) + [(e.size("C", 3, "chan"), "chan"), (e.size("T", 8, "time"), "time")]
            x = e.t("x", d, real=True)
            return pub(I, "select_most_energetic"), [x], dict(num=2, dim=dim, dim_reduc=red)
        return b
    add("select_most_energetic", "select_most_energetic(dim=-2, dim_reduc=-1)", sel(-2, -1), ("sel",))

    # ---- convolution
    def conv(mode):
        def b(I, s, e):
            x1 = e.t("x1", list(e.b) + [(e.size("n1", 2, "time"), "time")], real=True)
            x2 = e.t("x2", list(e.b) + [(e.size("n2", 2, "time2"), "time2")], real=True)
            return pub(I, "fftconvolve"), [x1, x2], dict(mode=mode)
        return b
    for m in ("full", "same", "valid"):
        add("fftconvolve", "fftconvolve(mode=%s)" % m, conv(m), ("conv",))

    # ---- STFT
    def st(kw):
        def b(I, s, e):
            o = e.to(I.call(pub(I, "STFT"), [256], dict(kw)))
            d = list(e.b) + [(e.size("C", 2, "chan"), "chan"), (e.size("T", 600, "time"), "time")]
            x = e.t("x", d, real=True)
            return o, [x], {}
        return b

    def ist(kw):
        def b(I, s, e):
            o = e.to(I.call(pub(I, "STFT"), [256], dict(kw)))
            d = list(e.b) + [(e.size("C", 2, "chan"), "chan"), (P(129), "freq"), (e.size("N", 8, "frame"), "frame")]
            x = e.t("X", d)
            return I.getattr(o, "inv"), [x], {}
        return b
    for kw in ({}, {"hop_length": 64}, {"window": "hamming", "hop_length": 128}):
        add("STFT", "STFT(256, %s)" % kw, st(kw), ("stft",))
        add("STFT", "STFT(256, %s).inv" % kw, ist(kw), ("stft",))
    return out


def realmat(e, name, lo="ge0", C=None):
    F, C = e.size("F", 2, "freq"), e.size("C", 3, "chan") if C is None else P(C)
    return e.t(name, e.b + [(F, "freq"), (C, "chan"), (C, "chan")], real=True, lo=lo)


def vec(e, name):
    F, C = e.size("F", 2, "freq"), e.size("C", 3, "chan")
    return e.t(name, e.b + [(F, "freq"), (C, "chan")])


def phase_two(I, fname, kw, nb, dt, covariant):
    """a rescaling helper on a separated signal with arbitrary phase psi(src, freq) and a reference with phase rho(freq)"""
    s = S(I)
    b = batch(I, s, nb)
    Ns, F, N = s.size("Ns", 2, role="src"), s.size("F", 2, role="freq"), s.size("N", 4, role="frame")
    if fname == "projection_back":
        I.facts.add(N - Ns)
    if covariant:
        I.groups["psi"] = ("freq",)
        I.groups["rho"] = ("freq",)
    Y = tensor(I, "Y", b + [(Ns, "src", ((("psi", P(0)), 1),) if covariant else ()), (F, "freq"), (N, "frame")], dt)
    ref = tensor(I, "ref", b + [(F, "freq"), (N, "frame")], dt)
    if covariant:
        ref.qs = ((("rho", P(0)), 1),)
    kw = dict(kw)
    if "model" in kw:
        I.flags["model_hook"] = scen.source_hook()
        kw["model"] = scen.model_obj(I, kw["model"])
    t = I.call(pub(I, fname), [Y, ref], kw)
    return t, Y, s, b


def selection(I, nd, num, d, r, dt):
    s = S(I)
    dims = []
    for i in range(nd):
        lo = 2 if i == d % nd else 2
        dims.append((s.size("D%d" % i, lo, role="ax%d" % i), "ax%d" % i))
    n = num
    if num == "sym":
        n = s.size("num", 1)
        I.facts.add(dims[d % nd][0] - n)
    x = tensor(I, "x", dims, dt)
    t = I.call(pub(I, "select_most_energetic"), [x], dict(num=n, dim=d, dim_reduc=r))
    return t, x, n
