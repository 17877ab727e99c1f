"""Checks that compare two uses of the library within one analysis (value numbers must agree)."""
from .poly import P, Poly, lower
from .vals import *
from .interp import Program, explore, Interp
from . import scen, vals
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook, wpe_hook, tensor, batch
from .checks import (check, multi, clean, definite_exc, witness, wtext, exc_bad, shape_verdict, run_all, tensors_of, eq_size, out_dims)
from .checks2 import Sep, ALGOS, BEAMS

AbsRaise = None


def _ar():
    global AbsRaise
    if AbsRaise is None:
        from . import interp
        AbsRaise = interp.AbsRaise
    return AbsRaise


class Out:
    """result of one use: value or exception"""

    def __init__(self, v=None, exc=None):
        self.v, self.exc = v, exc

    def vn(self):
        if self.exc is not None:
            return ("exc", self.exc.kind)
        return vnof(self.v)

    def __repr__(self):
        return "raises %s" % (self.exc,) if self.exc is not None else "%r" % (self.v,)


def fresh(I):
    """restart the sources of arbitrary choice, so that equal computations get equal value numbers"""
    I.reset_rng()
    I.sym_count.clear()


def use(I, f, *a, **k):
    fresh(I)
    try:
        return Out(I.call(f, list(a), dict(k)))
    except _ar() as e:
        return Out(exc=getattr(e, "exc", e))


def opaque_model(I, label, kind="opaque"):
    o = model_obj(I, kind)
    if hasattr(o, "label") or True:
        try:
            o.label = label
        except Exception:
            pass
    return o


def usable(out):
    v = out.v
    return out.exc is None and isinstance(v, T) and v.shape is not None


# ---------------------------------------------------------------------------
# configured option values and values given at call time
CALLS = {
    "T_ISS": (4, "model", dict(n_iter=1, n_taps=1, n_delay=1, n_src=3, proj_back_mic=1, use_dmc=False, eps=1e-3),
              dict(n_iter=(2, 0), n_taps=(2, 0), n_delay=(2, 0), n_src=(4, 2), proj_back_mic=(2, 0), use_dmc=(True,), eps=(1e-2,), model=("M2",))),
    "T_ISS+dmc": (4, "model", dict(n_iter=1, n_taps=1, n_delay=1, n_src=3, proj_back_mic=1, use_dmc=True, eps=1e-3),
                  dict(use_dmc=(False,), n_taps=(2, 0), n_src=(4,), proj_back_mic=(0,), model=("M2",))),
    "T_ISS+det": (3, "model", dict(n_iter=2, n_taps=0, n_delay=0, n_src=3, proj_back_mic=2, use_dmc=False, eps=1e-3),
                  dict(n_iter=(1,), n_taps=(1,), n_delay=(), n_src=(2,), proj_back_mic=(0,), eps=(1e-2,), model=("M2",))),
    "AuxIVA_IP": (4, "model", dict(n_iter=1, n_src=3, proj_back_mic=1, eps=1e-3),
                  dict(n_iter=(2, 0), n_src=(4, 2), proj_back_mic=(2, 0), eps=(1e-2,), model=("M2",))),
    "AuxIVA_IP2": (2, "model", dict(n_iter=1, proj_back_mic=1, eps=1e-3), dict(n_iter=(2, 0), proj_back_mic=(0,), eps=(1e-2,), model=("M2",))),
    "FIVE": (4, "model", dict(n_iter=2, proj_back_mic=1, eps=1e-3, n_power_iter=2),
             dict(n_iter=(1, 3), proj_back_mic=(2, 0), eps=(1e-2,), n_power_iter=(3, 1), model=("M2",))),
    "FIVE+eig": (4, "model", dict(n_iter=2, proj_back_mic=1, eps=1e-3), dict(n_iter=(1,), proj_back_mic=(0,), eps=(1e-2,), n_power_iter=(2,), model=("M2",))),
    "WPE": (4, "model", dict(n_iter=1, n_delay=1, n_taps=2, eps=1e-3), dict(n_iter=(2, 0), n_delay=(2, 0), n_taps=(3, 1), eps=(1e-2,), model=("M2",))),
    "MVDRBeamformer": (4, "mask_model", dict(ref_mic=1, eps=1e-3, mvdr_type="rtf"),
                       dict(ref_mic=(2, 0), eps=(1e-2,), mvdr_type=("scm",), n_power_iter=(2,), mask_model=("M2",))),
    "MVDRBeamformer+scm": (4, "mask_model", dict(ref_mic=1, eps=1e-3, mvdr_type="scm"),
                           dict(ref_mic=(2, 0), eps=(1e-2,), mvdr_type=("rtf",), mask_model=("M2",))),
    "MVDRBeamformer+power": (4, "mask_model", dict(ref_mic=1, eps=1e-3, mvdr_type="rtf", n_power_iter=3),
                             dict(ref_mic=(0,), eps=(1e-2,), n_power_iter=(2, 1), mask_model=("M2",))),
    "MWFBeamformer": (4, "mask_model", dict(ref_mic=1, eps=1e-3, time_invariant=True),
                      dict(ref_mic=(2, 0), eps=(1e-2,), time_invariant=(False,), mask_model=("M2",))),
    "MWFBeamformer+tv": (4, "mask_model", dict(ref_mic=1, eps=1e-3, time_invariant=False),
                         dict(ref_mic=(2, 0), eps=(1e-2,), time_invariant=(True,), mask_model=("M2",))),
    "GEVBeamformer": (4, "mask_model", dict(ref_mic=1, eps=1e-3), dict(ref_mic=(2, 0), eps=(1e-2,), mask_model=("M2",))),
}
# options whose value must not change the result
NEUTRAL = {"use_dmc"}
# n_delay is meaningless without taps
COND = {}


def setup(I, alg, C, nb):
    s = S(I)
    beam = alg in ("MVDRBeamformer", "MWFBeamformer", "GEVBeamformer")
    I.flags["model_hook"] = mask_hook(None, 2, 4 if alg == "MWFBeamformer" else 2) if beam else wpe_hook() if alg == "WPE" else source_hook()
    X = stft_input(I, s, nb, C)
    return s, X


def opt_val(models, k, v):
    return models[v] if k in ("model", "mask_model") else v


@check("C06", "For every algorithm and every option, the abstract interpreter runs the same input three ways: the option overridden at call time, the option "
       "configured with that value, and the configured object again after the overriding call; every result carries a structural value number of the "
       "computation that produced it. Falsy values (0, False) and all options at once are included.",
       "value numbering: override == configured; override != previous value; later call == first call of a fresh object; stored options unchanged")
def c06(prog, R, tier):
    deep = tier == "thorough"
    for name, (C, mk_, conf, over) in CALLS.items():
        alg = name.split("+")[0]
        for nb in (0, 1, 2) if deep else (0, 1):
            todo = [{k: v} for k, vs in over.items() for v in vs]
            both = {k: vs[0] for k, vs in over.items() if vs}
            both2 = {k: vs[-1] for k, vs in over.items() if vs}
            todo += [both, both2, {}]
            if deep:
                ks = [k for k in over if over[k]]
                todo += [{a: over[a][0], b: over[b][-1]} for i, a in enumerate(ks) for b in ks[i + 1:]]
            for ov in todo:
                ctx = "%s configured %s, call with %s, batch-rank=%d" % (name, show(conf), show(ov) or "nothing", nb)
                outs, comp = multi(prog, R, lambda I: override_run(I, alg, C, mk_, conf, ov, nb), ctx)
                for o in outs:
                    override_verdict(R, outs, o, name, alg, conf, ov, mk_, ctx)


def show(d):
    return ",".join("%s=%s" % kv for kv in d.items())


def override_run(I, alg, C, mk_, conf, ov, nb):
    s, X = setup(I, alg, C, nb)
    m = {"M1": opaque_model(I, "M1"), "M2": opaque_model(I, "M2")}
    cls = pub(I, alg)
    base = dict(conf)
    base[mk_] = "M1"
    val = lambda d: {k: opt_val(m, k, v) for k, v in d.items()}
    a = I.call(cls, [], val(base))
    before = options_of(I, a, conf)
    plain = use(I, a, X)                                  # configured object, nothing overridden
    b = I.call(cls, [], val(base))
    over = use(I, b, X, **val(ov))                        # overridden at call time
    mid = options_of(I, b, conf)
    again = use(I, b, X)                                  # and used again
    want = dict(base)
    want.update(ov)
    c = I.call(cls, [], val(want))
    conf_ = use(I, c, X)                                  # configured with the overriding values
    none = use(I, a, X, **{k: None for k in list(conf) + [mk_]})
    return plain, over, again, conf_, none, before, mid


def options_of(I, o, conf):
    """public option attributes (where the class has them)"""
    out = {}
    for k in conf:
        try:
            out[k] = vnof(I.getattr(o, k))
        except _ar():
            pass
    return out


def override_verdict(R, outs, o, name, alg, conf, ov, mk_, ctx):
    if o.cut:
        R.unk("analysed", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "completes", outs, o, ctx)
        return
    plain, over, again, conf_, none, before, mid = o.value
    if not clean(o) or witness(o) is None:
        R.unk("analysed", ctx, "path depends on guessed conditions")
        return
    key = ",".join(sorted(ov))
    for nm, z in (("overriding call", over), ("configured object", conf_), ("plain call", plain), ("call after the overriding one", again), ("call with every option None", none)):
        if z.exc is not None:
            R.bad("completes", getattr(z.exc, "site", None), "%s: %s" % (nm, z.exc), ctx, key="%s:%s:%s" % (name, key, getattr(z.exc, "kind", "?")))
            return
        if not usable(z):
            R.unk("analysed", ctx, "%s: result not tracked" % nm)
            return
    if over.vn() == conf_.vn():
        R.ok("override-equals-configured", ctx)
    else:
        R.bad("override-equals-configured", None, "%s given at call time does not give the result of an object configured with it" % show(ov), ctx, key="%s:%s" % (alg, key))
    if ov and not set(ov) <= NEUTRAL:
        if over.vn() != plain.vn():
            R.ok("influences", ctx)
        else:
            R.bad("influences", None, "%s has no effect on the result (configured %s)" % (show(ov), show({k: conf.get(k) for k in ov})), ctx, key="%s:%s" % (name, key))
    if again.vn() == plain.vn():
        R.ok("one-call-only", ctx)
    else:
        R.bad("one-call-only", None, "after a call with %s the object no longer behaves as configured" % show(ov), ctx, key="%s:%s" % (alg, key))
    if none.vn() == plain.vn():
        R.ok("none-means-configured", ctx)
    else:
        R.bad("none-means-configured", None, "options left out (None) do not take their configured value", ctx, key=alg)
    if mid != before:
        R.bad("one-call-only", None, "the stored options change from %s to %s" % (before, mid), ctx, key="%s:%s" % (alg, key))


# ---------------------------------------------------------------------------
MODELS = ("default", "laplace", "gauss", "nmf", "opaque", "plain", "stateful")


def histories(I, alg, s, C, beam):
    """signals of other shapes that may have been processed before"""
    def sig(name, dims):
        return tensor(I, name, dims, C64)
    F, N = s.v["F"], s.v["N"]
    F2, N2 = s.size("F2", 2), s.size("N2", 8)
    return {
        "same shape": sig("Z1", s.b + [(s.v["C"], "chan"), (F, "freq"), (N, "frame")]),
        "other length": sig("Z2", s.b + [(s.v["C"], "chan"), (F, "freq"), (N2, "frame")]),
        "other frequencies": sig("Z3", s.b + [(s.v["C"], "chan"), (F2, "freq"), (N2, "frame")]),
        "other batch": sig("Z4", [(P(5), "bz")] + [(s.v["C"], "chan"), (F, "freq"), (N, "frame")]),
        "other channels": sig("Z5", s.b + [(P(C if alg == "AuxIVA_IP2" else C + 1), "chan"), (F, "freq"), (N, "frame")]),
    }


@check("C07", "For every algorithm (and waveform separator) and every kind of source model the abstract interpreter runs a signal through a new object, and the "
       "same signal through an object that has already processed other signals (same shape, other length, frequencies, batch, channels, a call that failed at once or after its iterations, "
       "another algorithm sharing the source model, another object built without a model, a source model given at call time), and compares the value numbers of the results.",
       "value numbering over two histories: the result after any history equals the result of a new object; nothing read comes from an earlier call")
def c07(prog, R, tier):
    deep = tier == "thorough"
    algs = [("T_ISS", 4, dict(n_iter=2, n_taps=1, n_delay=1, n_src=2)), ("T_ISS", 3, dict(n_iter=2)), ("T_ISS", 3, dict(n_iter=2, use_dmc=True)),
            ("AuxIVA_IP", 4, dict(n_iter=2, n_src=2)), ("AuxIVA_IP", 3, dict(n_iter=2)), ("AuxIVA_IP2", 2, dict(n_iter=2)),
            ("FIVE", 4, dict(n_iter=2)), ("FIVE", 4, dict(n_iter=2, n_power_iter=2)), ("WPE", 4, dict(n_iter=2, n_taps=2, n_delay=1)),
            ("MVDRBeamformer", 4, {}), ("MVDRBeamformer", 4, dict(mvdr_type="scm")), ("MVDRBeamformer", 4, dict(n_power_iter=2)),
            ("MWFBeamformer", 4, {}), ("MWFBeamformer", 4, dict(time_invariant=False)), ("GEVBeamformer", 4, {})]
    hist = ["same shape", "other length", "other frequencies", "other batch", "other channels", "failed call", "late failure", "shared model", "other object", "two calls",
            "model of the call", "model of another call"]
    for alg, C, kw in algs:
        beam = alg.endswith("former")
        for mod in (("opaque", "plain") if beam else MODELS if deep else ("default", "laplace", "nmf", "stateful", "opaque")):
            for nb in (0, 1, 2) if deep else (0, 1):
                if not deep and nb == 0 and mod in ("laplace", "opaque"):
                    continue
                if alg == "WPE" and mod in ("laplace", "gauss", "nmf"):
                    continue    # WPE wants one weight map for all channels
                for h in hist:
                    if h == "other object" and mod != "default":
                        continue
                    if h == "shared model" and (mod == "default" or beam and False):
                        continue
                    if h == "model of the call" and mod == "default":
                        continue
                    if not deep and h in ("other batch", "two calls", "model of another call") and mod in ("laplace", "opaque"):
                        continue
                    ctx = "%s(%s) model=%s batch-rank=%d after: %s" % (alg, show(kw), mod, nb, h)
                    outs, comp = multi(prog, R, lambda I: history_run(I, alg, C, kw, mod, nb, h, beam), ctx, 24)
                    for o in outs:
                        history_verdict(R, outs, o, alg, mod, h, ctx)
    for a in ALGOS:
        for mod in ("nmf", "stateful", "laplace") if a not in BEAMS else ("stateful",):
            for h in ("same shape", "other length", "other batch", "two calls"):
                ctx = "BSSSeparator(%s) model=%s after: %s" % (a, mod, h)
                outs, comp = multi(prog, R, lambda I: sep_history(I, a, mod, h), ctx, 24)
                for o in outs:
                    history_verdict(R, outs, o, "BSSSeparator:" + a, mod, h, ctx)
    # the same source model moved from one separator to another and models used directly
    for dt in ("transform",):
        ctx = "STFT after other signals"
        outs, comp = multi(prog, R, lambda I: stft_history(I), ctx, 24)
        for o in outs:
            history_verdict(R, outs, o, "STFT", "-", "other", ctx)


def build_alg(I, alg, kw, model):
    k = dict(kw)
    if model is not None:
        k["mask_model" if alg.endswith("former") else "model"] = model
    return I.call(pub(I, alg), [], k)


def new_model(I, mod):
    return None if mod == "default" else opaque_model(I, "m", mod) if mod in ("opaque", "plain", "stateful") else model_obj(I, mod)


def history_run(I, alg, C, kw, mod, nb, h, beam):
    s, X = setup(I, alg, C, nb)
    Z = histories(I, alg, s, C, beam)
    mk_ = "mask_model" if beam else "model"
    if h == "model of the call":
        # the source model is an argument of every call, the same object in all of them
        dummy = opaque_model(I, "own")
        a = build_alg(I, alg, kw, dummy)
        ref = use(I, a, X, **{mk_: new_model(I, mod)})
        b = build_alg(I, alg, kw, dummy)
        m = new_model(I, mod)
        prior = use(I, b, Z["same shape"], **{mk_: m})
        return ref, use(I, b, X, **{mk_: m}), prior, h
    a = build_alg(I, alg, kw, new_model(I, mod))
    ref = use(I, a, X)
    m = new_model(I, mod)
    b = build_alg(I, alg, kw, m)
    prior = None
    if h == "model of another call":
        prior = use(I, b, Z["same shape"], **{mk_: opaque_model(I, "own")})
    if h == "late failure":
        # fails after the iterations
        prior = use(I, b, Z["same shape"], **{"ref_mic" if beam else "proj_back_mic": 99}) if alg != "WPE" else use(I, b, Z["same shape"], n_iter="x")
    mm = None
    if alg == "WPE" and h == "shared model":
        h = "other length"
    if h in Z:
        prior = use(I, b, Z[h])
    elif h == "two calls":
        use(I, b, Z["other length"])
        prior = use(I, b, Z["same shape"])
    elif h == "failed call":
        bad = tensor(I, "Zbad", [(P(C), "chan"), (s.v["F"], "freq")], C64)
        prior = use(I, b, bad)
    elif h == "shared model":
        other = "FIVE" if alg != "FIVE" else "AuxIVA_IP"
        if beam:
            other = "GEVBeamformer" if alg != "GEVBeamformer" else "MWFBeamformer"
        c = build_alg(I, other, dict(n_iter=1) if not beam else {}, m)
        prior = use(I, c, Z["other length"])
    elif h == "other object":
        c = build_alg(I, alg, kw, new_model(I, mod))
        prior = use(I, c, Z["other length"])
    got = use(I, b, X)
    return ref, got, prior, h


def sep_history(I, a, mod, h):
    c = Sep(a, 1, 2 if a == "ip2" else 4, 512, 128, opts=dict(n_src=2) if a == "tiss" else {}, model=mod)
    s = c.sizes(I)
    x = c.signal(I, s)
    T2 = s.size("T2", 5000)
    z = {"same shape": tensor(I, "z1", s.b + [(s.v["C"], "chan"), (s.v["T"], "time")], F32),
         "other length": tensor(I, "z2", s.b + [(s.v["C"], "chan"), (T2, "time")], F32),
         "other batch": tensor(I, "z3", [(P(5), "bz"), (s.v["C"], "chan"), (s.v["T"], "time")], F32)}
    p = c.build(I, s)
    ref = use(I, p, x)
    q = c.build(I, s)
    if h == "two calls":
        use(I, q, z["other length"])
        prior = use(I, q, z["other batch"])
    else:
        prior = use(I, q, z[h])
    got = use(I, q, x)
    return ref, got, prior, h


def stft_history(I):
    s = S(I)
    x = tensor(I, "x", [(s.size("B0", 1, role="b0"), "b0"), (s.size("T", 900, role="time"), "time")], F32)
    z = tensor(I, "z", [(s.size("B1", 1), "bz"), (P(3), "chan"), (s.size("T2", 900), "time")], F64)
    a = I.call(pub(I, "STFT"), [256], {})
    b = I.call(pub(I, "STFT"), [256], {})
    X = use(I, a, x)
    ref = use(I, I.getattr(a, "inv"), X.v)
    prior = use(I, b, z)
    X2 = use(I, b, x)
    got = use(I, I.getattr(b, "inv"), X2.v)
    return ref, got, None, "other"


def history_verdict(R, outs, o, alg, mod, h, ctx):
    if o.cut:
        R.unk("analysed", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "completes", outs, o, ctx)
        return
    ref, got, prior, h = o.value
    if not clean(o) or witness(o) is None:
        R.unk("analysed", ctx, "path depends on guessed conditions")
        return
    if h not in ("failed call", "late failure") and prior is not None and prior.exc is not None:
        R.unk("analysed", ctx, "earlier call fails: %s" % (prior.exc,))
        return
    if ref.exc is not None:
        R.unk("analysed", ctx, "reference call fails: %s" % (ref.exc,))
        return
    if got.exc is not None:
        R.bad("history-independent", getattr(got.exc, "site", None), "the call fails after earlier calls: %s" % (got.exc,), ctx, key="%s:%s:%s" % (alg, mod, got.exc.kind))
        return
    if not usable(ref) or not usable(got):
        R.unk("analysed", ctx, "result not tracked")
        return
    if ref.vn() == got.vn():
        R.ok("history-independent", ctx)
    else:
        R.bad("history-independent", None, "the result differs from that of a new object (%s)" % h, ctx, key="%s:%s" % (alg, mod))
