"""The per-property checks."""
from .poly import P, Poly, lower
from .vals import *
from .interp import Program, explore, Interp
from . import scen, charge as Q
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook, tensor, batch
from .cases import Case, algo_cases, BEAM, BLIND

REG = {}


def check(pid, what, rule):
    def d(f):
        REG[pid] = (f, what, rule)
        return f
    return d


def multi(prog, R, scenario, ctx, max_paths=48):
    outs, complete = explore(prog, scenario, max_paths)
    R.absorb(outs)
    return outs, complete


def clean(o):
    """the path was selected by sizes and options alone (no guess about data or unknown values)"""
    return not getattr(o.I, "guessed", 0)


def definite_exc(outs, o):
    return clean(o) or (outs and all(x.exc is not None and x.exc.kind == o.exc.kind for x in outs))


def witness(o):
    """sizes under which the path is taken, or None when no sample satisfies the path facts"""
    try:
        for env in o.I.facts.samples(n=1):
            return env
    except Exception:
        return {}
    return None


def wtext(o):
    w = witness(o)
    if not w:
        return ""
    return " (e.g. " + ", ".join("%s=%s" % (k, v) for k, v in sorted(w.items(), key=str) if "#" not in str(k))[:120] + ")"


OPERR = ("NameError", "UnboundLocalError", "AttributeError", "TypeError", "RuntimeError", "IndexError", "KeyError", "ValueError",
         "AssertionError", "ImportError", "ZeroDivisionError", "NotImplementedError", "ModuleNotFoundError")


def exc_bad(R, rule, outs, o, ctx, kinds=None):
    """an exception on a valid request"""
    e = o.exc
    if kinds and e.kind not in kinds:
        return False
    if not definite_exc(outs, o):
        R.unk(rule, ctx, "exception on a data-dependent path: %s" % e)
        return True
    if witness(o) is None:
        R.unk(rule, ctx, "exception on a path with no size witness: %s" % e)
        return True
    R.bad(rule, e.site, "%s: %s%s" % (e.kind, e.msg, wtext(o)), ctx)
    return True


def out_dims(t):
    return None if t.shape is None else [d.size for d in t.shape]


def eq_size(I, a, b):
    """True proved, False refuted by a witness, None undecided"""
    a, b = P(a), P(b)
    if I.facts.prove_eq(a, b):
        return True
    env = I.facts.refute_eq(a, b)
    if env is not None:
        return False
    return None


def shape_verdict(I, t, want):
    if not isinstance(t, T):
        return None, "result is not a tensor: %r" % (t,)
    dims = out_dims(t)
    if dims is None:
        return None, "unknown rank"
    if len(dims) != len(want):
        return False, "result has %d dimensions %s, expected %d %s" % (len(dims), dims, len(want), want)
    un = None
    for i, (a, b) in enumerate(zip(dims, want)):
        r = eq_size(I, a, b)
        if r is False:
            return False, "dimension %d of the result is %s, expected %s" % (i - len(want), lower(P(a)), lower(P(b)))
        if r is None:
            un = i
    if un is not None:
        return None, "dimension %d undecided" % un
    # the batch axes are the input's batch axes in order
    return True, ""


def roles_verdict(t, roles):
    for d, r in zip(t.shape, roles):
        if r is None:
            continue
        rr = [a.role for a in d.atoms]
        if rr and rr != [r] and None not in rr:
            return False, "axis holds %s where %s was expected" % (rr, r)
    return True, ""


# ---------------------------------------------------------------------------
@check("C01", "Every public separation/extraction/dereverberation/beamforming class is interpreted abstractly on an STFT tensor whose batch, "
       "channel, frequency and frame sizes are symbols, for every option combination listed in tv/cases.py; each path must end in a return "
       "whose symbolic shape equals (batch..., n_src, n_freq, n_frames) for all sizes.",
       "path-sensitive shape inference: no operation may be ill-shaped and the result shape must be provably the documented one")
def c01(prog, R, tier):
    for case in algo_cases(tier):
        ctx = repr(case)
        outs, comp = multi(prog, R, lambda I: case.run(I), ctx)
        for o in outs:
            if o.cut:
                R.unk("completes", ctx, o.cut)
                continue
            if o.exc:
                exc_bad(R, "completes", outs, o, ctx)
                continue
            Y, X, s, kw = o.value
            want = [P(b[0]) for b in s.b] + [case.expected_src(o.I, s, kw), s.v["F"], s.v["N"]]
            v, why = shape_verdict(o.I, Y, want)
            if v is True:
                v, why = roles_verdict(Y, [b[1] for b in s.b] + [None, "freq", "frame"])
            if v is True:
                R.ok("shape", ctx, Y)
            elif v is False and witness(o) is not None and (clean(o) or len(outs) == 1):
                R.bad("shape", fn_site(o, case.alg), why + wtext(o), ctx, key="%s:%s" % (case.alg, why.split(",")[0]))
            else:
                R.unk("shape", ctx, why)


def fn_site(o, name):
    return None


# ---------------------------------------------------------------------------
from .helpers import helper_cases, Help


def tensors_of(v, out=None):
    out = [] if out is None else out
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            tensors_of(x, out)
    return out


def spec_axis_roles(case):
    return None


def run_all(prog, R, tier, fn, algo=True, helpers=True, algo_kw=None, keep=None, hkeep=None, on_exc=None, **runkw):
    """explore every algorithm case and helper case; fn(o, result, ctx, case)"""
    todo = []
    if algo:
        for c in algo_cases(tier, **(algo_kw or {})):
            if keep is None or keep(c):
                todo.append(c)
    if helpers:
        for h in helper_cases(tier):
            if hkeep is None or hkeep(h):
                todo.append(h)
    for c in todo:
        ctx = repr(c)
        outs, comp = multi(prog, R, lambda I: c.run(I, **runkw), ctx)
        for o in outs:
            if o.cut:
                R.unk("analysed", ctx, o.cut)
            elif o.exc:
                if on_exc is None or not on_exc(outs, o, ctx, c):
                    R.unk("analysed", ctx, "raises %s" % o.exc)
            else:
                fn(outs, o, o.value[0], ctx, c)


@check("C02", "Every algorithm, source model, transform and rescaling helper is interpreted with one and two symbolic batch axes; the analysis "
       "tracks which axes hold batch items and records every operation (reduction, contraction, sort, index selection, reshape, branch "
       "condition) that combines different items of a batch axis and reaches the result.",
       "information-flow over axes: no data flow (or control dependence) from one batch item to another; batch axes keep order and position")
def c02(prog, R, tier):
    def fn(outs, o, v, ctx, c):
        ok = True
        for t in tensors_of(v):
            for site, what in sorted(t.mix, key=str):
                ok = False
                R.bad("no-cross-item-flow", site, "batch items are combined (%s) and reach the result" % what, ctx)
            if t.shape is not None and c.nb:
                rr = [[a.role for a in d.atoms] for d in t.shape[:c.nb]]
                want = [[] if i in getattr(c, "ones", ()) else ["b%d" % i] for i in range(c.nb)]
                flat = [r for d in t.shape for a in d.atoms for r in [a.role]]
                moved = rr != want and any(r and r[0] == "b" and r[1:].isdigit() for r in flat)
                known = all(None not in x for x in rr)
                if moved and known:
                    ok = False
                    R.bad("batch-axes-in-place", None, "batch axes of the result are %s, expected %s" % (rr, want), ctx, key="%s:%s" % (c.name if isinstance(c, Help) else c.alg, rr))
        for site, what in sorted(set(o.I.ctrl_mix), key=str):
            ok = False
            R.bad("no-cross-item-control", site, "a branch tests a quantity that combines batch items (%s)" % what, ctx,
                  key="%s:%s" % (c.name if isinstance(c, Help) else c.alg, what))
        if ok:
            R.ok("item-independent", ctx, v)
    run_all(prog, R, tier, fn, keep=lambda c: c.nb >= 1, hkeep=lambda h: h.nb >= 1, algo_kw=dict(models=True))


def real_of(dt):
    return {"complex128": "float64", "complex64": "float32"}.get(dt.name, dt.name)


@check("C03", "Every algorithm, built-in source model, transform, linear-algebra and rescaling helper is interpreted with complex128/float64 and with "
       "complex64/float32 input; dtype inference follows PyTorch's promotion rules.",
       "dtype propagation: the result has the input's precision, no data-dependent value is stored in or converted to a lower precision, and no complex value into a real one")
def c03(prog, R, tier):
    for dt in (C128, C64):
        bits = dt.bits

        def fn(outs, o, v, ctx, c):
            ctx = "%s input=%s" % (ctx, dt)
            ok = True
            for t in tensors_of(v):
                if t.dtype is None:
                    R.unk("result-precision", ctx)
                    ok = False
                elif t.dtype.kind in "fc" and t.dtype.bits != bits:
                    ok = False
                    R.bad("result-precision", None, "result dtype is %s for %s input" % (t.dtype, dt), ctx,
                          key="%s:%s->%s" % (c.name if isinstance(c, Help) else c.alg, dt.name, t.dtype.name))
            for e in o.I.events:
                if e[0] == "lossy":
                    ok = False
                    R.bad("no-lossy-store", e[1], e[2], ctx)
            if ok:
                R.ok("precision", ctx, v)

        def on_exc(outs, o, ctx, c):
            if o.exc.kind == "RuntimeError" and "dtype" in o.exc.msg:
                return exc_bad(R, "dtype-compatible", outs, o, ctx + " input=%s" % dt)
            return False
        run_all(prog, R, tier, fn, hkeep=lambda h: not (h.tags & {"net"}) and not ("stft" in h.tags and dt is C64 and False), algo_kw=dict(models=True), on_exc=on_exc,
                keep=lambda c: c.nb <= 1, dtype=dt)


@check("C04", "Every algorithm, source model, transform and helper is interpreted with its input on an accelerator and the modules moved there with .to(); "
       "every tensor factory without an explicit device yields a CPU tensor in the model.",
       "device propagation: no operation combines data with a tensor of another device, the result is on the input's device")
def c04(prog, R, tier):
    def fn(outs, o, v, ctx, c):
        ok = True
        for e in o.I.events:
            if e[0] == "device_mix":
                ok = False
                R.bad("same-device", e[1], "operands on %s and %s" % (e[2], e[3]), ctx)
        for t in tensors_of(v):
            if t.device != "cuda:0":
                if t.device in (None, "?"):
                    R.unk("result-device", ctx)
                else:
                    R.bad("result-device", None, "result is on %s, input on cuda:0" % (t.device,), ctx, key="%s" % (c.name if isinstance(c, Help) else c.alg))
                ok = False
        if ok:
            R.ok("device", ctx, v)

    def on_exc(outs, o, ctx, c):
        if any(e[0] == "device_mix" for e in o.I.events) or "device" in o.exc.msg:
            return exc_bad(R, "same-device", outs, o, ctx)
        return False
    run_all(prog, R, tier, fn, on_exc=on_exc, algo_kw=dict(models=True), keep=lambda c: c.nb <= 1, device="cuda:0")


@check("C05", "Every algorithm, source model, transform and helper is interpreted with caller-owned input storage; views, slices, transposes, expanded and "
       "strided aliases keep the identity of that storage.",
       "alias analysis: no in-place write (index assignment, augmented assignment, *_ method, out=) reaches storage owned by the caller")
def c05(prog, R, tier):
    def fn(outs, o, v, ctx, c):
        ok = True
        for e in o.I.events:
            if e[0] == "write_caller":
                ok = False
                R.bad("no-write-to-argument", e[1], "writes into storage of argument %s" % (e[2],), ctx)
        if ok:
            R.ok("arguments-untouched", ctx, v)

    def on_exc(outs, o, ctx, c):
        for e in o.I.events:
            if e[0] == "write_caller":
                R.bad("no-write-to-argument", e[1], "writes into storage of argument %s" % (e[2],), ctx)
        return False
    run_all(prog, R, tier, fn, on_exc=on_exc, algo_kw=dict(models=True))


@check("C08", "Every algorithm is interpreted with an opaque differentiable source model or mask network; the analysis records each point where a "
       "data-dependent value loses its gradient (detach, no_grad, integer/rounding conversion, .item(), numpy) and follows it to the result.",
       "taint analysis: no gradient-severed value may influence the result, except a row scaling computed without gradient that multiplies both sides of the same linear solve")
def c08(prog, R, tier):
    def fn(outs, o, v, ctx, c):
        ok = True
        for t in tensors_of(v):
            if t.dtype is None or t.dtype.kind not in "fc":
                continue
            for site, kind in sorted(t.sev.items(), key=str):
                ok = False
                R.bad("gradient-unbroken", site, "the result depends on a value computed without gradient (%s)" % kind, ctx)
            if ok and not t.grad:
                ok = False
                R.bad("gradient-unbroken", None, "the result is not connected to the input's gradient", ctx, key="%s:nograd" % getattr(c, "alg", getattr(c, "name", "")))
        if ok:
            R.ok("differentiable", ctx, v)
    cases = []
    deep = tier == "thorough"
    for c in algo_cases(tier):
        if c.nb > 1 and not deep:
            continue
        if c.alg == "WPE" or c.masks:
            cases.append(c)
        else:
            cases.append(c.rep(model="opaque"))
            if c.nb == 1:
                cases.append(c)
    seen = set()
    for c in cases:
        ctx = repr(c)
        if ctx in seen:
            continue
        seen.add(ctx)
        outs, comp = multi(prog, R, lambda I: c.run(I), ctx)
        for o in outs:
            if o.value is None:
                R.unk("analysed", ctx, o.exc or o.cut)
            else:
                fn(outs, o, o.value[0], ctx, c)
    for h in helper_cases(tier):
        if h.tags & {"scale", "model", "net", "stft", "conv"}:
            ctx = repr(h)
            outs, comp = multi(prog, R, lambda I: h.run(I), ctx)
            for o in outs:
                if o.value is not None:
                    fn(outs, o, o.value[0], ctx, h)
                else:
                    R.unk("analysed", ctx, o.exc or o.cut)


def charge_show(t):
    return Q.show(t) + (" status=%s" % (t.qst,) if t.qst != "ok" else "")


@check("C10", "Every separation, extraction and beamforming algorithm is interpreted with each input channel c carrying an arbitrary phase factor phi_c(f); the "
       "analysis types every tensor by the character under which it transforms (a formal sum of phi at its own indices), with a fresh gauge group "
       "for the arbitrary phase of each eigenvector.",
       "equivariance typing: sums are homogeneous, contractions cancel, non-linear functions see neutral arguments, and the result carries exactly +phi[reference microphone]")
def c10(prog, R, tier):
    for c in algo_cases(tier, wpe=False, models=True):
        if c.opts.get("n_src") == 1 and c.C is not None:
            continue
        if c.alg in BEAM:
            ref = c.opts["ref_mic"]
        else:
            ref = c.opts.get("proj_back_mic", 0)
            if ref is None:
                continue
        ctx = repr(c)
        outs, comp = multi(prog, R, lambda I: c.run(I, phase=True), ctx)
        for o in outs:
            if o.value is None:
                R.unk("analysed", ctx, o.exc or o.cut)
                continue
            Y, X, s, kw = o.value
            if not isinstance(Y, T) or Y.shape is None or Y.qst == "unk":
                R.unk("covariant", ctx, "charge unknown")
                continue
            if Q.is_bad(Y):
                R.bad("covariant", Y.qst[1], Y.qst[2], ctx)
                continue
            r = kw.get("ref_mic" if c.alg in BEAM else "proj_back_mic", 0)
            want = ((("phi", P(r)), 1),)
            if Y.qst == "zero" or Y.comp or Y.ri or Y.qe:
                R.unk("covariant", ctx, "charge not separable")
                continue
            charged = [(i, a.q) for i, d in enumerate(Y.shape) for a in d.atoms if a.q and not Q.is_zero_q(o.I, a.q)]
            if not charged and Q.eq_q(o.I, Y.qs, want):
                R.ok("covariant", ctx, Y)
            elif not charged and not Q.is_zero_q(o.I, Q.qadd(Y.qs, want, -1)) and witness(o) is not None and definitely_differs(o.I, Y.qs, want):
                R.bad("reference-phase", None, "output transforms as %s, expected +phi[%s]" % (charge_show(Y), r), ctx,
                      key="%s:%s" % (c.alg, charge_show(Y)))
            elif charged:
                R.bad("reference-phase", None, "output transforms as %s, expected +phi[%s]" % (charge_show(Y), r), ctx,
                      key="%s:%s" % (c.alg, charge_show(Y)))
            else:
                R.unk("reference-phase", ctx, charge_show(Y))


def definitely_differs(I, a, b):
    """the formal sums differ for some admissible sizes"""
    d = Q.qadd(a, b, -1)
    from .poly import eval_poly
    for env in I.facts.samples(n=20):
        acc = {}
        try:
            for (g, o), c in d:
                k = (g, eval_poly(P(o), env, I.facts))
                acc[k] = acc.get(k, 0) + c
        except Exception:
            return False
        if any(acc.values()):
            return True
    return False


@check("C11", "Every blind algorithm and built-in source model is interpreted with identically zero (silent) input; constant propagation of exact zeros "
       "through the data path shows which divisors, logarithm arguments and system matrices vanish.",
       "zero propagation: no division by, logarithm of, or solve with an exactly zero (unfloored, unloaded) quantity reaches the result")
def c11(prog, R, tier):
    def fn(outs, o, v, ctx, c):
        ok = True
        for t in tensors_of(v):
            for site, what in sorted(t.nan, key=str):
                ok = False
                R.bad("finite-on-silence", site, "%s: argument is exactly zero for silent input" % what, ctx)
        if ok:
            R.ok("finite-on-silence", ctx, v)
    run_all(prog, R, tier, fn, keep=lambda c: c.alg not in BEAM and c.nb <= 1, hkeep=lambda h: h.tags & {"model", "scale"} or (h.tags & {"net"}),
            algo_kw=dict(models=True, masks=False), zero=True)

    def fn2(outs, o, v, ctx, c):
        for e in o.I.events:
            if e[0] == "solve" and e[4]:
                if e[3] is False:
                    R.bad("loaded-solve", e[1], "%s on a data-dependent matrix without diagonal loading: singular for duplicate channels or fewer frames than channels" % e[2], ctx)
                elif e[3]:
                    R.ok("loaded-solve", ctx)
                else:
                    R.unk("loaded-solve", ctx, e[1])
    LOADED = ("linalg.solve_loaded", "linalg.solve_loaded_general", "linalg.inv_loaded", "projection_back")
    run_all(prog, R, tier, fn2, keep=lambda c: c.alg not in BEAM and c.nb <= 1, hkeep=lambda h: h.name in LOADED, algo_kw=dict(masks=False))


@check("C14", "The dereverberating separator and the weighted-prediction-error class are interpreted with a lag domain: each tensor carries the set of "
       "frame offsets (as polynomial intervals in n_taps and n_delay) of the input that may enter an output frame.",
       "lag-set inference: the result's lags are exactly {0} and [-(delay+taps), -(delay+1)], with zero padding before the start and no wrap-around")
def c14(prog, R, tier):
    todo = []
    deep = tier == "thorough"
    for nb in (0, 1, 2) if deep else (0, 1):
        for C in (None, 2):
            for taps, delay in (("sym", "sym"), (1, 0), (1, 1), (3, 2), (2, 0), (5, 3), (1, "sym"), ("sym", 0)):
                todo.append(Case("WPE", nb, C, dict(n_iter=2, n_taps=taps, n_delay=delay), model=None))
                todo.append(Case("T_ISS", nb, C, dict(n_iter=1, n_taps=taps, n_delay=delay)))
                if C is None:
                    todo.append(Case("T_ISS", nb, C, dict(n_iter=1, n_taps=taps, n_delay=delay, n_src="<C")))
                todo.append(Case("T_ISS", nb, C, dict(n_iter=2, n_taps=taps, n_delay=delay, use_dmc=True)))
            for d in (0, 2, "sym"):
                todo.append(Case("T_ISS", nb, C, dict(n_iter=1, n_taps=0, n_delay=d)))
    for c in todo:
        ctx = repr(c)
        outs, comp = multi(prog, R, lambda I: c.run(I, lag=True), ctx)
        for o in outs:
            if o.value is None:
                R.unk("analysed", ctx, o.exc or o.cut)
                continue
            Y, X, s, kw = o.value
            if not isinstance(Y, T):
                R.unk("lags", ctx)
                continue
            bad = [x for x in Y.taint if "wrap" in str(x) or "padvalue" in str(x)]
            if bad:
                R.bad("silent-history", None, "frames before the start are not silence: %s" % (bad,), ctx, key=str(sorted(map(str, bad))))
                continue
            lags_check(R, o, Y, kw, ctx, c)


def lags_check(R, o, Y, kw, ctx, c):
    I = o.I
    taps, delay = P(kw["n_taps"]), P(kw["n_delay"])
    if any(x is None for l in Y.lags for x in l):
        R.unk("lags", ctx, Y.lags)
        return
    if not Y.lags:
        R.unk("lags", ctx, "no lag information")
        return
    from .poly import eval_poly
    # decide on sample assignments: exact sets of offsets
    diff = None
    n = 0
    for env in I.facts.samples(n=40):
        try:
            got = set()
            for lo, hi in Y.lags:
                a, b = eval_poly(P(lo), env, I.facts), eval_poly(P(hi), env, I.facts)
                got |= set(range(int(a), int(b) + 1))
            t, d = int(eval_poly(taps, env, I.facts)), int(eval_poly(delay, env, I.facts))
        except Exception:
            continue
        want = {0} | set(range(-d - t, -d))
        n += 1
        if got != want:
            diff = (env, sorted(got), sorted(want))
            break
    if diff is None:
        if n:
            R.ok("lags", ctx, "%s lags=%s" % (Y, sorted(map(str, Y.lags))))
        else:
            R.unk("lags", ctx, "no witness")
    else:
        e = {k: v for k, v in diff[0].items() if k in ("taps", "delay", "N", "C")}
        R.bad("lags", None, "output frame n uses input frames n%+d..: offsets %s, expected %s for %s, taps=%s delay=%s" % (
            diff[1][0], diff[1], diff[2], e, lower(taps), lower(delay)), ctx, key="%s:%s" % (c.alg, sorted(map(str, Y.lags))))
