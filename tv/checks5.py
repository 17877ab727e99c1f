"""Rejection of invalid requests, hidden effects, configurations, name binding."""
import ast
from .poly import P, Poly, lower
from .vals import *
from .interp import Program, explore, Interp
from . import scen, vals, vfs
from .vfs import PathV
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook, wpe_hook, tensor, batch
from .checks import (check, multi, clean, definite_exc, witness, wtext, exc_bad, shape_verdict, run_all, tensors_of, eq_size, out_dims)
from .checks2 import Sep, ALGOS, BEAMS
from .checks3 import use, Out, fresh, opaque_model, usable, show
from .checks4 import rejected, run_cli, events, CONFIGS, MODEL_FS, config_hook, copy_conf, D, W


# ---------------------------------------------------------------------------
def more_src(I, s, n, C):
    """a number of sources above the number of channels"""
    if n == "sym":
        v = s.size("Ns", 1, role="src")
        I.facts.add(v - s.v["C"] - 1)
        return v
    return n


def invalid(deep):
    """(name, scenario): requests that must be refused"""
    out = []

    def add(name, f):
        out.append((name, f))
    ranks = (0, 1, 2) if deep else (0, 1)
    # more sources than channels
    for cls in ("T_ISS", "AuxIVA_IP"):
        for nb in ranks:
            for C, n in ((None, "sym"), (2, 3), (3, 4), (2, 5)):
                for ref in (0, 1, None):
                    for kw in ({}, dict(n_iter=0)) + (({"use_dmc": True}, dict(n_taps=2, n_delay=1)) if cls == "T_ISS" else ()):
                        if not deep and (ref == 1 or nb == 1) and kw:
                            continue

                        def f(I, cls=cls, nb=nb, C=C, n=n, ref=ref, kw=kw, how="cons"):
                            s = S(I)
                            I.flags["model_hook"] = source_hook()
                            X = stft_input(I, s, nb, C, chan_lo=2)
                            v = more_src(I, s, n, C)
                            opts = dict(n_iter=1, proj_back_mic=ref, model=opaque_model(I, "m"))
                            opts.update(kw)
                            if how == "cons":
                                opts["n_src"] = v
                                return I.call(I.call(pub(I, cls), [], opts), [X], {})
                            return I.call(I.call(pub(I, cls), [], opts), [X], {"n_src": v})
                        t = "%s(%s): %s sources of %s channels, batch-rank=%d, proj_back_mic=%s" % (cls, show(kw), n if n != "sym" else "more", C or "C", nb, ref)
                        add(t, f)
                        add(t + " (given at call time)", lambda I, f=f: f(I, how="call"))
    for C, n in ((2, 3), (3, 4)):
        def g(I, C=C, n=n):
            I.flags["model_hook"] = source_hook()
            sep = I.call(pub(I, "nn.BSSSeparator"), [256], dict(n_iter=1, n_src=n, source_model=opaque_model(I, "m")))
            return I.call(sep, [tensor(I, "x", [(P(C), "chan"), (P(2048), "time")], F32)], {})
        add("BSSSeparator(tiss): %d sources of %d channels" % (n, C), g)
    # the two-channel algorithm
    for nb in ranks:
        for C in (1, 3, None, 4):
            for kw in ({}, {"n_iter": 0}, {"proj_back_mic": None}):
                def f(I, nb=nb, C=C, kw=kw):
                    s = S(I)
                    I.flags["model_hook"] = source_hook()
                    X = stft_input(I, s, nb, C, chan_lo=3)
                    return I.call(I.call(pub(I, "AuxIVA_IP2"), [], dict(dict(n_iter=1, model=opaque_model(I, "m")), **kw)), [X], {})
                add("AuxIVA_IP2(%s) with %s channels, batch-rank=%d" % (show(kw), C or ">=3", nb), f)
    for C in (1, 3):
        def g(I, C=C):
            I.flags["model_hook"] = source_hook()
            sep = I.call(pub(I, "nn.BSSSeparator"), [256], dict(n_iter=1, algo="ip2", source_model=opaque_model(I, "m")))
            return I.call(sep, [tensor(I, "x", [(P(C), "chan"), (P(2048), "time")], F32)], {})
        add("BSSSeparator(ip2) with %d channels" % C, g)
    # names
    for a in ("unknown", "", "auxiva", "mvdrr", None):
        add("BSSSeparator(algo=%r)" % (a,), lambda I, a=a: I.call(pub(I, "nn.BSSSeparator"), [256], dict(algo=a)))
    for m in ("sames", "", "FULLL", "circular", None, 3):
        def f(I, m=m):
            s = S(I)
            x = tensor(I, "x", [(s.size("n1", 2), "time")], F32)
            y = tensor(I, "y", [(s.size("n2", 2), "time2")], F32)
            return I.call(pub(I, "fftconvolve"), [x, y], dict(mode=m))
        add("fftconvolve(mode=%r)" % (m,), f)
    for t in ("souden", "", 0, "RTFF"):
        for how in ("cons", "call"):
            def f(I, t=t, how=how):
                s = S(I)
                I.flags["model_hook"] = mask_hook(None, 2, 2)
                X = stft_input(I, s, 1, None)
                kw = {"mvdr_type": t} if how == "cons" else {}
                o = I.call(pub(I, "MVDRBeamformer"), [opaque_model(I, "m")], kw)
                return I.call(o, [X], {} if how == "cons" else {"mvdr_type": t})
            add("MVDRBeamformer(mvdr_type=%r) %s" % (t, how), f)
    for nm in (1, 4, 5):
        def f(I, nm=nm):
            s = S(I)
            I.flags["model_hook"] = mask_hook(None, 2, nm)
            X = stft_input(I, s, 1, None)
            return I.call(I.call(pub(I, "MVDRBeamformer"), [opaque_model(I, "m")], {}), [X], {})
        add("MVDRBeamformer with %d masks per source" % nm, f)
    # matrices of the wrong size
    for r, c in ((3, 3), (1, 1), (2, 3), (3, 2), (4, 4), ("n", "n"), (2, 1), (1, 2)):
        for nb in ranks:
            def mat(I, s, name, r, c, nb):
                n = s.size("n", 3) if "n" in (r, c) else None
                dims = s.b + [(s.v.get("F") or s.size("F", 2, role="freq"), "freq"), (n if r == "n" else P(r), "row"), (n if c == "n" else P(c), "col")]
                return tensor(I, name, dims, C64)

            def f(I, r=r, c=c, nb=nb, fn="inv_2x2", pos=0):
                s = S(I)
                s.b = batch(I, s, nb)
                A = mat(I, s, "A", r, c, nb)
                a = [A]
                if pos == 1:
                    a = [mat(I, s, "A2", 2, 2, nb), A]
                elif pos == 2:
                    a = [A, mat(I, s, "B2", 2, 2, nb)]
                return I.call(pub(I, "linalg." + fn), a, {})
            nmx = "%sx%s" % (r, c)
            add("inv_2x2 of a %s matrix, batch-rank=%d" % (nmx, nb), f)
            add("eigh_2x2 of a %s matrix, batch-rank=%d" % (nmx, nb), lambda I, f=f: f(I, fn="eigh_2x2"))
            add("eigh_2x2 with a %s second matrix, batch-rank=%d" % (nmx, nb), lambda I, f=f: f(I, fn="eigh_2x2", pos=1))
            add("eigh_2x2 with a %s first of two matrices, batch-rank=%d" % (nmx, nb), lambda I, f=f: f(I, fn="eigh_2x2", pos=2))
    for kw in (dict(p=0.0), dict(p=2.5), dict(p=-1.0), dict(p=-0.5, q=1.0), dict(p=1.5, q=1.0), dict(p=1.0, q=2.5), dict(p=0.0, q=1.0)):
        for nb in ranks:
            for mi in (None, 1):
                def f(I, kw=kw, nb=nb, mi=mi):
                    s = S(I)
                    Y = stft_input(I, s, nb, 2, name="Y")
                    ref = tensor(I, "ref", s.b + [(s.v["F"], "freq"), (s.v["N"], "frame")], C64)
                    return I.call(pub(I, "minimum_distortion"), [Y, ref], dict(kw, **({} if mi is None else {"max_iter": mi})))
                add("minimum_distortion(%s), batch-rank=%d%s" % (show(kw), nb, "" if mi is None else ", one iteration"), f)
    # a reference microphone the two-channel algorithm does not have
    for ref in (2, 3, -1, -3):
        for nb in ranks:
            for how in ("cons", "call"):
                def f(I, ref=ref, nb=nb, how=how):
                    s = S(I)
                    I.flags["model_hook"] = source_hook()
                    X = stft_input(I, s, nb, 2)
                    o = I.call(pub(I, "AuxIVA_IP2"), [], dict(dict(n_iter=1, model=opaque_model(I, "m")), **({"proj_back_mic": ref} if how == "cons" else {})))
                    return I.call(o, [X], {} if how == "cons" else {"proj_back_mic": ref})
                add("AuxIVA_IP2(proj_back_mic=%d) %s, batch-rank=%d" % (ref, how, nb), f)
    # the time-variant Wiener filter needs four masks
    for nm in (2, 3, 5):
        for nb in ranks:
            for how in ("cons", "call"):
                def f(I, nm=nm, nb=nb, how=how):
                    s = S(I)
                    I.flags["model_hook"] = mask_hook(None, 2, nm)
                    X = stft_input(I, s, nb, None)
                    o = I.call(pub(I, "MWFBeamformer"), [opaque_model(I, "m")], {"time_invariant": how != "cons"})
                    return I.call(o, [X], {} if how == "cons" else {"time_invariant": False})
                add("MWFBeamformer(time_invariant=False) %s with %d masks per source, batch-rank=%d" % (how, nm, nb), f)
    # a window that does not fit the transform
    for nf, dims in ((256, [P(128)]), (256, [P(512)]), (256, [P(255)]), (256, [P(1), P(256)]), (256, [P(256), P(1)]), (256, [])):
        def f(I, nf=nf, dims=dims):
            return I.call(pub(I, "STFT"), [nf], dict(window=tensor(I, "w", [(d, "w%d" % j) for j, d in enumerate(dims)], F32)))
        add("STFT(%d) with a window of shape %s" % (nf, tuple(str(d) for d in dims)), f)
    # command line
    wav = dict(W("/work/a.wav"), **D("/work", "/work/d"))
    wav["/work/n.txt"] = ("file", ("text",))
    wav["/work/d/a.wav"] = ("file", ("audio", "d"))
    wav["/work/b.mp3"] = ("file", ("mp3",))
    wav["/work/wav"] = ("file", ("audio", "noext"))
    wav["/work/a.wav.bak"] = ("file", ("audio", "bak"))
    cl = ["--model-type", "laplace", "-n", "1", "--nfft", "256"]

    def cmd(name, argv, lay=None):
        def f(I):
            I.flags["model_hook"] = source_hook()
            I.flags["config_hook"] = config_hook
            run_cli(I, list(argv), lay or dict(wav, **MODEL_FS), 4, 1024)
            return "done"
        f.cli = True
        add("separate " + name, f)
    for i in ("n.txt", "b.mp3", "wav", "a.wav.bak"):
        cmd("a non-wav input (%s)" % i, [i, "out.wav"] + cl)
        cmd("a non-wav input (%s) into a folder" % i, [i, "d"] + cl)
        cmd("a non-wav input (%s) with a stored model" % i, [i, "out.wav", "--model-path", "/models/a"])
    for i, o_ in (("a.wav", "a.wav"), ("a.wav", "/work/a.wav"), ("a.wav", "."), ("d", "d"), ("d", "/work/d"), ("d/a.wav", "d"), ("d", "./d"), ("./a.wav", "d/../a.wav")):
        cmd("identical input and output (%s, %s)" % (i, o_), [i, o_] + cl)
        cmd("identical input and output (%s, %s) with a stored model" % (i, o_), [i, o_, "--model-path", "/models/a"])
    for alg in BEAMS:
        for m in ("laplace", "gauss", "nmf"):
            cmd("--algo %s with the untrained model %s" % (alg, m), ["a.wav", "out.wav", "--algo", alg, "--model-type", m])
            cmd("--algo %s with the untrained model %s, two sources of three" % (alg, m), ["a.wav", "out.wav", "--algo", alg, "--model-type", m, "-m", "3", "-s", "2"])
    for mic, src in ((2, 3), (3, 4), (1, 2)):
        for alg in (None, "tiss", "ip2", "five"):
            cmd("--mic %d --src %d --algo %s" % (mic, src, alg), ["a.wav", "out.wav", "-m", str(mic), "-s", str(src)] + (["--algo", alg] if alg else []) + cl)
        cmd("--mic %d --src %d with a stored model" % (mic, src), ["a.wav", "out.wav", "-m", str(mic), "-s", str(src), "--model-path", "/models/a"])
    for mic, src in ((3, 2), (4, 1), (1, 1), (3, 3)):
        cmd("--algo ip2 --mic %d --src %d" % (mic, src), ["a.wav", "out.wav", "-m", str(mic), "-s", str(src), "--algo", "ip2"] + cl)
    cmd("an unknown algorithm", ["a.wav", "out.wav", "--algo", "unknown"] + cl)
    cmd("an unknown model type", ["a.wav", "out.wav", "--model-type", "unknown"])
    cmd("a model path that does not exist", ["a.wav", "out.wav", "--model-path", "/models/none"])
    cmd("a model path that is a file", ["a.wav", "out.wav", "--model-path", "/models/a/model_config.yaml"])
    cmd("a model folder that is empty", ["a.wav", "out.wav", "--model-path", "d"])
    cmd("an input that does not exist", ["none.wav", "out.wav"] + cl, dict(wav)) if False else None

    def ns(I):
        """the parsed options may also be handed over directly"""
        I.vfs = dict(wav)
        I.flags["cuda"] = False
        sep = I.import_module("torchiva.separate")
        parser = I.call(I.getattr(sep, "get_parser"), [], {})
        args = I.call(I.getattr(parser, "parse_args"), [["a.wav", "out.wav"] + cl], {})
        I.setattr(args, "model_type", "unknown") if hasattr(I, "setattr") else args.attrs.__setitem__("model_type", "unknown")
        I.call(I.getattr(sep, "main"), [args], {})
        return "done"
    ns.cli = True
    add("separate with an unknown model type in the namespace", ns)
    return out


@check("C21", "Every kind of invalid request is made of the entry points with symbolic sizes (any number of sources above any number of channels, any batch shape) or "
       "each spelling; all abstract paths must end in an exception, not an accidental name error, and no file may be written on the way.",
       "all-paths analysis: no path from an invalid request reaches a return or a write of a result")
def c21(prog, R, tier):
    for name, f in invalid(tier == "thorough"):
        outs, comp = multi(prog, R, f, name)
        for o in outs:
            rejected(R, outs, o, name, name)
            if getattr(f, "cli", False) and not o.cut:
                w = events(o.I, "audio_save")
                if w and clean(o) and witness(o) is not None:
                    R.bad("nothing-written", w[0][1], "a result is written for the invalid request: %s" % name, name, key=name)
                elif not w:
                    R.ok("nothing-written", name)
