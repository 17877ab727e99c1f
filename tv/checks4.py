"""Checks of the waveform separator's dispatch, the command line, and the model loader."""
from .poly import P, Poly, lower
from .vals import *
from .interp import Program, explore, Interp
from . import scen, vals, vfs
from .vfs import PathV
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook, wpe_hook, tensor, batch
from .checks import (check, multi, clean, definite_exc, witness, wtext, exc_bad, shape_verdict, run_all, tensors_of, eq_size, out_dims)
from .checks2 import Sep, ALGOS, BEAMS
from .checks3 import use, Out, fresh, opaque_model, usable, show

BASE = dict(n_iter=2, n_taps=1, n_delay=1, n_src=2, proj_back_mic=1, use_dmc=False, n_power_iter=2, eps=1e-3)
# name -> (class, channels, option of the waveform separator -> option of the algorithm, fixed options)
DISPATCH = {
    "tiss": ("T_ISS", 3, {"n_iter": "n_iter", "n_taps": "n_taps", "n_delay": "n_delay", "n_src": "n_src", "proj_back_mic": "proj_back_mic", "use_dmc": "use_dmc", "eps": "eps"}, {}),
    "ip2": ("AuxIVA_IP2", 2, {"n_iter": "n_iter", "proj_back_mic": "proj_back_mic", "eps": "eps"}, {}),
    "five": ("FIVE", 3, {"n_iter": "n_iter", "proj_back_mic": "proj_back_mic", "eps": "eps", "n_power_iter": "n_power_iter"}, {}),
    "mvdr": ("MVDRBeamformer", 3, {"proj_back_mic": "ref_mic", "eps": "eps", "n_power_iter": "n_power_iter"}, {}),
    "mwf": ("MWFBeamformer", 3, {"proj_back_mic": "ref_mic", "eps": "eps"}, {}),
    "gev": ("GEVBeamformer", 3, {"proj_back_mic": "ref_mic", "eps": "eps"}, {}),
}
MEMBER = {"tiss": "T_ISS", "ip2": "AUXIVA_IP2", "five": "FIVE", "mvdr": "MVDR", "mwf": "MWF", "gev": "GEV"}
OTHER = dict(n_iter=(3, 1, 0), n_taps=(0, 2), n_delay=(0, 2), n_src=(3, None), proj_back_mic=(0,), use_dmc=(True,), n_power_iter=(None, 3), eps=(1e-2, 1e-6))


def events(I, kind, start=0):
    return [e for e in I.events[start:] if e[0] == kind]


def inv_inputs(I, start):
    """what is transformed back, with which transform"""
    out = []
    for k in ("stft", "istft"):
        for e in events(I, k, start):
            out.append((k, tuple(sorted((a, vnof(b)) for a, b in e[2].items()))))
    return out


def traced(I, f, *a, **k):
    n = len(I.events)
    o = use(I, f, *a, **k)
    return o, inv_inputs(I, n)


@check("C17", "For every algorithm name and enum member, and every value of every option, the abstract interpreter runs the waveform separator and, next to it, "
       "the transform followed by the named algorithm constructed directly with the same options; the signal handed to the inverse transform must carry the same "
       "value number. Names and members outside the advertised set must be refused.",
       "value numbering: separator(name, options) == transform o algorithm(name)(options) o inverse transform, for each option value; unknown names raise")
def c17(prog, R, tier):
    deep = tier == "thorough"
    for name, (cls, C, mp, fixed) in DISPATCH.items():
        todo = [({}, "str", "opaque")]
        todo += [({}, "enum", "opaque")]
        for k, vs in OTHER.items():
            todo += [({k: v}, "str", "opaque") for v in vs]
        todo += [({k: vs[0] for k, vs in OTHER.items()}, "str", "opaque"), ({k: vs[-1] for k, vs in OTHER.items()}, "enum", "opaque")]
        if deep:
            ks = list(OTHER)
            todo += [({a: OTHER[a][0], b: OTHER[b][-1]}, "enum", "opaque") for i, a in enumerate(ks) for b in ks[i + 1:]]
        if name not in BEAMS:
            todo += [({}, "str", m) for m in ("default", "laplace", "gauss", "nmf", "dict", "dict-args", "stateful")]
        else:
            todo += [({}, "str", "dict")]
        todo += [({"hop_length": 64}, "str", "opaque"), ({"window": "hamming"}, "str", "opaque")]
        for nb in (0, 1, 2) if deep else (1,):
            for ov, how, mod in todo:
                ctx = "BSSSeparator(algo=%s as %s, %s) model=%s batch-rank=%d" % (name, how, show(ov) or "base options", mod, nb)
                outs, comp = multi(prog, R, lambda I: dispatch_run(I, name, ov, how, mod, nb), ctx)
                for o in outs:
                    dispatch_verdict(R, outs, o, name, ov, how, mod, ctx)
    for bad in ("unknown", "", "tisss", "ilrma", "wpe", 3, 1.5, ("tiss", "ip2")):
        ctx = "BSSSeparator(algo=%r)" % (bad,)
        outs, comp = multi(prog, R, lambda I: I.call(pub(I, "nn.BSSSeparator"), [512], dict(algo=bad, source_model=opaque_model(I, "m"))), ctx)
        for o in outs:
            rejected(R, outs, o, ctx, "unknown algorithm %r" % (bad,))
    # the enumeration offers exactly the advertised names
    ctx = "members of SepAlgo"
    outs, comp = multi(prog, R, lambda I: [I.getattr(m, "value") for m in I.to_list(pub(I, "nn.SepAlgo"))], ctx)
    for o in outs:
        if o.exc or o.cut or not isinstance(o.value, list) or not all(isinstance(x, str) for x in o.value):
            R.unk("names", ctx, o.exc or o.cut or o.value)
        elif sorted(o.value) == sorted(DISPATCH):
            R.ok("names", ctx, o.value)
        else:
            R.bad("names", None, "the advertised names are %s, expected %s" % (sorted(o.value), sorted(DISPATCH)), ctx, key="SepAlgo")


def rejected(R, outs, o, ctx, what, rule="rejected", start=0):
    if o.cut:
        R.unk(rule, ctx, o.cut)
    elif o.exc is not None:
        if o.exc.kind in ("NameError", "UnboundLocalError"):
            R.bad(rule, o.exc.site, "%s fails by accident (%s) instead of being refused" % (what, o.exc), ctx)
        else:
            R.ok(rule, ctx, o.exc)
    elif not clean(o) or witness(o) is None:
        R.unk(rule, ctx, "path depends on guessed conditions")
    else:
        R.bad(rule, None, "%s is accepted%s" % (what, wtext(o)), ctx, key=what)


def dispatch_model(I, mod):
    if mod == "default":
        return None, model_obj(I, "laplace")
    if mod == "dict":
        return {"name": "tvdriver.OpaqueModel"}, opaque_model(I, "d")
    if mod == "dict-args":
        return {"name": "torchiva.models.NMFModel", "kwargs": {"n_basis": 3}}, I.call(pub(I, "models.NMFModel"), [], {"n_basis": 3})
    if mod == "opaque":
        return opaque_model(I, "m"), opaque_model(I, "m")
    if mod == "stateful":
        return opaque_model(I, "m", mod), opaque_model(I, "m", mod)
    return model_obj(I, mod), model_obj(I, mod)


def dispatch_run(I, name, ov, how, mod, nb):
    cls, C, mp, fixed = DISPATCH[name]
    s = S(I)
    I.flags["model_hook"] = mask_hook(None, 2, 4 if name == "mwf" else 2) if name in BEAMS else source_hook()
    s.b = batch(I, s, nb)
    T_ = 3072
    x = tensor(I, "x", s.b + [(P(C), "chan"), (P(T_), "time")], F32)
    opts = dict(BASE)
    st = {k: v for k, v in ov.items() if k in ("hop_length", "window")}
    opts.update({k: v for k, v in ov.items() if k not in st})
    m1, m2 = dispatch_model(I, mod)
    I.flags["dict_label"] = "d"
    algo = name if how == "str" else I.getattr(pub(I, "nn.SepAlgo"), MEMBER[name])
    fresh(I)
    sep = I.call(pub(I, "nn.BSSSeparator"), [512], dict(opts, algo=algo, source_model=m1, **st))
    if mod == "dict":
        I.getattr(sep, "source_model").label = "d"
    a, ia = traced(I, sep, x)
    fresh(I)
    alg = I.call(pub(I, cls), [], dict({v: opts[k] for k, v in mp.items()}, **{"mask_model" if name in BEAMS else "model": m2}))
    stf = I.call(pub(I, "STFT"), [512], st)

    def direct(I_, x):
        X = I.call(stf, [x], {})
        Y = I.call(alg, [X], {})
        return I.call(I.getattr(stf, "inv"), [Y], {})
    b, ib = traced(I, Bi("direct", direct), x)
    return a, ia, b, ib, I.getattr(sep, "algo")


def dispatch_verdict(R, outs, o, name, ov, how, mod, ctx):
    if o.cut:
        R.unk("dispatch", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "completes", outs, o, ctx)
        return
    a, ia, b, ib, alg = o.value
    if not clean(o) or witness(o) is None:
        R.unk("dispatch", ctx, "path depends on guessed conditions")
        return
    if b.exc is not None:
        R.unk("dispatch", ctx, "the algorithm itself fails: %s" % b.exc)
        return
    if a.exc is not None:
        R.bad("completes", getattr(a.exc, "site", None), "waveform separator fails where the algorithm works: %s" % a.exc, ctx, key="%s:%s" % (name, a.exc.kind))
        return
    if not usable(a) or not usable(b) or not ib:
        R.unk("dispatch", ctx, "result not tracked")
        return
    key = "%s:%s" % (name, ",".join(sorted(ov)) or mod)
    if ia == ib:
        R.ok("dispatch", ctx)
    elif [x for x in ia if x[0] == "stft"] != [x for x in ib if x[0] == "stft"]:
        R.bad("dispatch", None, "the separator analyses the signal with another transform than STFT(n_fft, hop_length, window)", ctx, key=key + ":stft")
    else:
        R.bad("dispatch", None, "algorithm %r with %s does not give the result of %s with these options" % (name, show(ov) or "the base options", DISPATCH[name][0]), ctx, key=key)


# ---------------------------------------------------------------------------
# command line
CLI = {"mic": ("-m", 3), "src": ("-s", 2), "nfft": ("--nfft", 512), "hop": ("--hop", 128), "win": ("--win", "hann"), "algo": ("--algo", "tiss"),
       "n_iter": ("-n", 2), "taps": ("-t", 1), "delay": ("-d", 1), "ref": ("--ref", 1), "eps": ("--eps", 1e-3), "model-type": ("--model-type", "laplace"),
       "n-basis": ("--n-basis", 3), "model-eps": ("--model-eps", 1e-2)}
CLASSIC = {"laplace": "LaplaceModel", "gauss": "GaussModel", "nmf": "NMFModel"}
CHANGES = dict(mic=(2, 4), src=(1, 3), nfft=(256,), hop=(64,), win=("hamming",), n_iter=(1, 0, 3), taps=(0, 2), delay=(0, 2), ref=(0, 2), eps=(1e-4,))
CHANGES["n-basis"] = (2,)
CHANGES["model-eps"] = (1e-4,)


def audio(C, T_=4096):
    def hook(I, path):
        return (tensor(I, "audio:%s" % path, [(P(C), "chan"), (P(T_), "time")], F32), 16000)
    return hook


def run_cli(I, argv, layout, C=4, T_=4096):
    """parse and run the command on a virtual file system; -> events from there on"""
    I.vfs = dict(layout)
    I.flags["cuda"] = False
    I.flags["audio_hook"] = audio(C, T_)
    sep = I.import_module("torchiva.separate")
    parser = I.call(sep.ns["get_parser"] if "get_parser" in sep.ns else I.getattr(sep, "get_parser"), [], {})
    args = I.call(I.getattr(parser, "parse_args"), [argv], {})
    n = len(I.events)
    fresh(I)
    I.call(I.getattr(sep, "main"), [args], {})
    return n


def cli_cases(deep):
    out = []
    for algo, model in (("tiss", "laplace"), ("tiss", "gauss"), ("tiss", "nmf"), ("ip2", "laplace"), ("ip2", "nmf"), ("five", "laplace"), ("five", "gauss")):
        base = {k: v[1] for k, v in CLI.items()}
        base["algo"], base["model-type"] = algo, model
        if algo == "ip2":
            base["mic"] = 2
        out.append((algo, model, base, "base options"))
        for k, vs in CHANGES.items():
            if not deep and model == "gauss" and k not in ("model-eps", "mic"):
                continue
            for v in vs:
                b = dict(base)
                b[k] = v
                if algo == "ip2" and (b["mic"] != 2 or b["src"] > 2 or b["ref"] > 1):
                    continue
                if b["src"] > b["mic"] or b["ref"] >= b["mic"]:
                    continue
                out.append((algo, model, b, "%s=%s" % (k, v)))
        if deep:
            ks = [k for k in CHANGES]
            for i, a in enumerate(ks):
                for c in ks[i + 1:]:
                    b = dict(base)
                    b[a], b[c] = CHANGES[a][0], CHANGES[c][-1]
                    if (algo == "ip2" and (b["mic"] != 2 or b["src"] > 2 or b["ref"] > 1)) or b["src"] > b["mic"] or b["ref"] >= b["mic"]:
                        continue
                    out.append((algo, model, b, "%s=%s,%s=%s" % (a, b[a], c, b[c])))
    return out


@check("C18", "The command is interpreted from its argument parser to the files written (virtual file system, opaque audio of known size), for each algorithm and "
       "source model with every option changed in turn. Next to it the separator is built directly with the options the command promises and run on the first "
       "--mic channels; transform input, transform parameters and the separated spectra must carry the same value numbers; what is saved has at most --src channels and the input's length.",
       "value numbering of the whole command against the documented composition; shape inference on what is saved")
def c18(prog, R, tier):
    deep = tier == "thorough"
    for algo, model, b, what in cli_cases(deep):
        ctx = "separate --algo %s --model-type %s, %s" % (algo, model, what)
        outs, comp = multi(prog, R, lambda I: cli_run(I, algo, model, b), ctx)
        for o in outs:
            cli_verdict(R, outs, o, "%s:%s" % (algo, what.split("=")[0]), b, ctx)
    # options left at their defaults
    for algo, model in (("tiss", "laplace"), (None, "laplace"), ("tiss", "nmf"), ("ip2", "gauss"), ("five", "nmf")):
        ctx = "separate --algo %s --model-type %s, defaults" % (algo, model)
        outs, comp = multi(prog, R, lambda I: cli_run(I, algo, model, None), ctx)
        for o in outs:
            cli_verdict(R, outs, o, "%s:defaults" % algo, dict(src=2, mic=2), ctx)
    # a stored model
    for algo in (None,) + ALGOS:
        for what in ({}, {"n_iter": 3}, {"n_iter": 1}, {"src": 1}, {"src": 3}, {"mic": 2}, {"mic": 4}, {"ref": 0}, {"ref": 2}, {"all": 1}):
            b = dict(mic=3, src=2, n_iter=2, ref=1)
            b.update(what)
            if "all" in what:
                b.update(mic=4, src=1, n_iter=4, ref=3)
            if algo == "ip2":
                if b["src"] > 2 or b["ref"] > 1 or "mic" in what or "all" in what:
                    continue
                b["mic"] = 2
            if b["ref"] >= b["mic"] or b["src"] > b["mic"]:
                continue
            for n_mask in ((2, 3) if algo in BEAMS else (2,)):
                ctx = "separate --model-type nn --algo %s, %s%s" % (algo, show(what) or "base options", " (masks for %d sources)" % n_mask if algo in BEAMS else "")
                outs, comp = multi(prog, R, lambda I: cli_nn_run(I, algo, b, n_mask), ctx)
                for o in outs:
                    cli_verdict(R, outs, o, "nn:%s:%s" % (algo, ",".join(sorted(what))), b, ctx)


FS0 = {"/work/in.wav": ("file", ("audio", "in"))}


def cli_run(I, algo, model, b):
    I.flags["model_hook"] = source_hook()
    argv = ["in.wav", "out.wav", "--model-type", model]
    if algo is not None:
        argv += ["--algo", algo]
    if b is not None:
        for k, (flag, _) in CLI.items():
            if k not in ("algo", "model-type"):
                argv += [flag, str(b[k])]
    n = run_cli(I, argv, FS0)
    ia = inv_inputs(I, n)
    saves = events(I, "audio_save", n)
    # the documented composition
    fresh(I)
    d = dict(CLI_DEFAULTS) if b is None else b
    src = 1 if algo == "five" else d["src"]
    mk = {}
    if d.get("model-eps") is not None:
        mk["eps"] = d["model-eps"]
    if model == "nmf":
        mk["n_basis"] = d["n-basis"]
    m = I.call(pub(I, "models." + CLASSIC[model]), [], mk)
    kw = dict(n_fft=d["nfft"], n_iter=d["n_iter"], n_taps=d["taps"], n_delay=d["delay"], n_src=src, algo=algo or "tiss", source_model=m,
              proj_back_mic=d["ref"], use_dmc=False)
    for k, q in (("hop", "hop_length"), ("win", "window"), ("eps", "eps")):
        if d.get(k) is not None:
            kw[q] = d[k]
    sep = I.call(pub(I, "nn.BSSSeparator"), [], kw)
    return reference(I, sep, d["mic"], ia, saves, src)


CLI_DEFAULTS = dict(mic=2, src=2, nfft=2048, n_iter=20, taps=0, delay=0, ref=0)
CLI_DEFAULTS["n-basis"] = 2


def reference(I, sep, mic, ia, saves, src):
    mix, fs = I.flags["audio_hook"](I, "in.wav")
    if mic < 4:
        mix = I.getitem(mix, (slice(0, mic), slice(None)))
    r, ib = traced(I, sep, mix)
    return ia, ib, r, saves, src, fs


def cli_verdict(R, outs, o, key, b, ctx):
    if o.cut:
        R.unk("analysed", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "completes", outs, o, ctx)
        return
    ia, ib, r, saves, src, fs = o.value
    if not clean(o) or witness(o) is None:
        R.unk("analysed", ctx, "path depends on guessed conditions")
        return
    if r.exc is not None or not ib:
        R.unk("analysed", ctx, "the direct call fails: %s" % (r.exc,))
        return
    if ia == ib:
        R.ok("takes-effect", ctx)
    else:
        d = [k for k in ("stft", "istft") if [x for x in ia if x[0] == k] != [x for x in ib if x[0] == k]]
        R.bad("takes-effect", None, "the command does not process the first %d channels with the separator these options describe (differs at %s)" % (b["mic"], "/".join(d)), ctx, key=key)
    if len(saves) != 1:
        R.bad("saved", None, "%d files are saved for one input" % len(saves), ctx, key=key)
        return
    t, rate = saves[0][3], saves[0][4]
    if not isinstance(t, T) or t.shape is None:
        R.unk("saved", ctx, "saved value not tracked")
        return
    dims = out_dims(t)
    if len(dims) != 2 or not all(P(d).is_const() for d in dims):
        R.unk("saved", ctx, dims)
        return
    c, n = P(dims[0]).const(), P(dims[1]).const()
    have = out_dims(r.v)[0] if isinstance(r.v, T) and r.v.shape else None
    want = min(src, int(P(have).const())) if have is not None and P(have).is_const() else None
    if c > src or (want is not None and c != want):
        R.bad("saved", saves[0][1], "%s channels are saved for --src %s (the separator returns %s)" % (c, src, have), ctx, key="channels")
    else:
        R.ok("saved", ctx, t)
    if n != 4096:
        R.bad("saved", saves[0][1], "the file holds %s samples, the input has 4096" % n, ctx, key="length")
    if vnof(rate) != vnof(fs):
        R.bad("saved", saves[0][1], "the sampling rate saved is not the input's", ctx, key="rate")
    if t.device != "cpu" and t.device is not None:
        R.bad("saved", saves[0][1], "tensor on %s saved" % t.device, ctx, key="device")


MODEL_FS = {
    "/work/in.wav": ("file", ("audio", "in")),
    "/models/a": ("dir",),
    "/models/a/model_weights.ckpt": ("file", ("weights", "a")),
    "/models/a/model_config.yaml": ("file", ("config", "a")),
    "/models/b": ("dir",),
    "/models/b/model_weights.ckpt": ("file", ("weights", "b")),
    "/models/b/model_config.yaml": ("file", ("config", "b")),
}
CONFIGS = {
    "a": dict(n_fft=512, hop_length=128, n_iter=5, n_taps=1, n_delay=1, proj_back_mic=0, use_dmc=False, n_power_iter=2, source_model={"name": "tvdriver.OpaqueModel"}),
    "b": dict(n_fft=256, hop_length=64, n_iter=3, n_taps=2, n_delay=0, proj_back_mic=1, use_dmc=False, n_power_iter=3, algo="tiss", eps=1e-3,
              source_model={"name": "tvdriver.OpaqueModel"}),
}


def config_of(content):
    """the stored configuration a file content stands for"""
    if isinstance(content, tuple) and content and content[0] == "config":
        return CONFIGS[content[1]]
    if isinstance(content, tuple) and content and content[0] == "url":
        return CONFIGS["b" if "/b" in content[1] or "other" in content[1] else "a"]
    return None


def copy_conf(c):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in c.items()}


def config_hook(I, content):
    c = config_of(content)
    return None if c is None else copy_conf(c)


def cli_nn_run(I, algo, b, n_mask):
    I.flags["model_hook"] = mask_hook(None, n_mask, 4 if algo == "mwf" else 2) if algo in BEAMS else source_hook()
    I.flags["config_hook"] = config_hook
    argv = ["in.wav", "out.wav", "--model-path", "/models/a", "-m", str(b["mic"]), "-s", str(b["src"]), "-n", str(b["n_iter"]), "--ref", str(b["ref"])]
    if algo is not None:
        argv += ["--algo", algo]
    n = run_cli(I, argv, MODEL_FS)
    ia = inv_inputs(I, n)
    saves = events(I, "audio_save", n)
    fresh(I)
    src = 1 if algo == "five" else b["src"]
    kw = copy_conf(CONFIGS["a"])
    kw.update(n_iter=b["n_iter"], n_src=src, proj_back_mic=b["ref"])
    if algo is not None:
        kw["algo"] = algo
    sep = I.call(pub(I, "nn.BSSSeparator"), [], kw)
    return reference(I, sep, b["mic"], ia, saves, src)


# ---------------------------------------------------------------------------
def W(*names):
    return {n: ("file", ("audio", n)) for n in names}


def D(*names):
    return {n: ("dir",) for n in names}


def L(**kw):
    return {k: ("link", v) for k, v in kw.items()}


# (name, layout, input, output, the request is an ordinary one that must be served)
def layouts(deep):
    flat = dict(W("/work/in/a.wav", "/work/in/b.wav"), **D("/work/in"))
    nested = dict(W("/work/in/a.wav", "/work/in/x/a.wav", "/work/in/y/a.wav", "/work/in/y/z/b.wav", "/work/in/x/y/a.wav"),
                  **D("/work/in", "/work/in/x", "/work/in/y", "/work/in/y/z", "/work/in/x/y"))
    same = dict(W("/work/in/x/a.wav", "/work/in/y/a.wav"), **D("/work/in", "/work/in/x", "/work/in/y"))
    flatten = dict(W("/work/in/x/a.wav", "/work/in/x_a.wav", "/work/in/x-a.wav", "/work/in/x.a.wav", "/work/in/xa.wav"), **D("/work/in", "/work/in/x"))
    flatten2 = dict(W("/work/in/x/y_a.wav", "/work/in/x_y/a.wav", "/work/in/x_y_a.wav", "/work/in/x/y/a.wav", "/work/in/a.wav"),
                    **D("/work/in", "/work/in/x", "/work/in/x_y", "/work/in/x/y"))
    dots = dict(W("/work/in/a.b.wav", "/work/in/a.c.wav", "/work/in/a.wav", "/work/in/.wav.wav"), **D("/work/in"))
    other = dict(W("/work/in/a.wav", "/work/in/x/b.wav"), **dict(D("/work/in", "/work/in/x"), **{"/work/in/notes.txt": ("file", ("text",)), "/work/in/x/c.mp3": ("file", ("mp3",))}))
    out = [
        ("one file to a new file", W("/work/a.wav"), "a.wav", "out.wav", True),
        ("one file to an absolute path", W("/work/a.wav"), "/work/a.wav", "/work/out.wav", True),
        ("one file over an older result", W("/work/a.wav", "/work/out.wav"), "a.wav", "out.wav", True),
        ("one file into a folder", dict(W("/work/a.wav"), **D("/work/out")), "a.wav", "out", True),
        ("one file into a folder with an older result", dict(W("/work/a.wav", "/work/out/a.wav"), **D("/work/out")), "a.wav", "out", True),
        ("one file below a folder into another folder", dict(W("/work/d/a.wav"), **D("/work/d", "/work/out")), "d/a.wav", "out", True),
        ("output named like the input without extension", W("/work/a.wav"), "a.wav", "a", None),
        ("output named like the input with another extension", W("/work/a.wav"), "a.wav", "a.flac", None),
        ("output named like the input with an extension in capitals", W("/work/a.wav"), "a.wav", "a.WAV", None),
        ("output named like the input with two extensions", W("/work/a.wav"), "a.wav", "a.wav.wav", True),
        ("output name starts with the input name", W("/work/a.b.wav", "/work/a.wav"), "a.b.wav", "a.b", None),
        ("input name with several dots", W("/work/a.b.wav"), "a.b.wav", "a.wav", True),
        ("new folder named like the input without extension", dict(W("/work/d/a.wav"), **D("/work/d", "/work/d/a")), "d/a.wav", "d/a", True),
        ("output is the input file", W("/work/a.wav"), "a.wav", "a.wav", False),
        ("output is the input file (absolute)", W("/work/a.wav"), "a.wav", "/work/a.wav", False),
        ("output is the input file (dot)", W("/work/a.wav"), "a.wav", "./a.wav", False),
        ("output is the input file (dot dot)", dict(W("/work/d/a.wav"), **D("/work/d", "/work/e")), "d/a.wav", "e/../d/a.wav", False),
        ("output folder holds the input file", dict(W("/work/d/a.wav"), **D("/work/d")), "d/a.wav", "d", False),
        ("output folder holds the input file (absolute)", dict(W("/work/d/a.wav"), **D("/work/d")), "d/a.wav", "/work/d", False),
        ("output folder holds the input file (current)", W("/work/a.wav"), "a.wav", ".", False),
        ("output file is a link to the input", dict(W("/work/a.wav"), **{"/work/b.wav": ("link", "/work/a.wav")}), "a.wav", "b.wav", False),
        ("input file is a link to the output", dict(W("/work/b.wav"), **{"/work/a.wav": ("link", "/work/b.wav")}), "a.wav", "b.wav", False),
        ("output folder is a link to the input's", dict(W("/work/d/a.wav"), **dict(D("/work/d"), **{"/work/e": ("link", "/work/d")})), "d/a.wav", "e", False),
        ("output folder holds a link to the input", dict(W("/work/a.wav"), **dict(D("/work/o"), **{"/work/o/a.wav": ("link", "/work/a.wav")})), "a.wav", "o", False),
        ("flat folder to a new folder", flat, "in", "out", True),
        ("flat folder to a deep new folder", flat, "in", "p/q/out", True),
        ("flat folder to an existing folder", dict(flat, **D("/work/out")), "in", "out", True),
        ("flat folder over older results", dict(flat, **dict(D("/work/out"), **W("/work/out/a.wav", "/work/out/b.wav"))), "in", "out", True),
        ("flat folder (absolute)", flat, "/work/in", "/work/out", True),
        ("empty folder", D("/work/in"), "in", "out", True),
        ("nested folders", nested, "in", "out", True),
        ("nested folders (absolute)", nested, "/work/in", "/work/out", True),
        ("same names in two folders", same, "in", "out", True),
        ("names that a flattening would merge", flatten, "in", "out", True),
        ("names that a flattening would merge (2)", flatten2, "in", "out", True),
        ("names with several dots", dots, "in", "out", True),
        ("folder with other files", other, "in", "out", True),
        ("folder with a folder named like a wav file", dict(W("/work/in/a.wav", "/work/in/d.wav/b.wav"), **D("/work/in", "/work/in/d.wav")), "in", "out", True),
        ("output folder is the input folder", flat, "in", "in", False),
        ("output folder is the input folder (dot)", flat, "in", "./in", False),
        ("output folder is the input folder (absolute)", flat, "in", "/work/in", False),
        ("output folder is the input folder (dot dot)", dict(flat, **D("/work/e")), "in", "e/../in", False),
        ("output folder is the input folder (trailing)", nested, "in", "in/x/..", False),
        ("output folder is a link to the input folder", dict(flat, **{"/work/e": ("link", "/work/in")}), "in", "e", False),
        ("input folder is a link to the output folder", dict(W("/work/r/a.wav"), **dict(D("/work/r"), **{"/work/in": ("link", "/work/r")})), "in", "r", False),
        ("output folder below the input folder", flat, "in", "in/out", None),
        ("output folder below the input folder with older results", dict(flat, **dict(D("/work/in/out"), **W("/work/in/out/a.wav", "/work/in/out/b.wav"))), "in", "in/out", False),
        ("output folder is a subfolder with recordings", nested, "in", "in/x", False),
        ("input folder below the output folder", nested, "in/x", "in", False),
        ("output folder holds a link to an input", dict(flat, **dict(D("/work/out"), **{"/work/out/a.wav": ("link", "/work/in/b.wav")})), "in", "out", False),
        ("links between results", dict(flat, **dict(D("/work/out"), **{"/work/out/a.wav": ("link", "/work/out/b.wav")})), "in", "out", None),
        ("links between folders of results", dict(same, **dict(D("/work/out", "/work/out/y"), **{"/work/out/x": ("link", "/work/out/y")})), "in", "out", None),
        ("input holds a link to another input", dict(W("/work/in/a.wav"), **dict(D("/work/in"), **{"/work/in/b.wav": ("link", "/work/in/a.wav")})), "in", "out", True),
        ("current folder", W("/work/a.wav", "/work/s/a.wav"), ".", "../out", True),
        ("current folder onto itself", W("/work/a.wav"), ".", "../work", False),
        ("output file where a folder is", dict(flat, **W("/work/o.wav")), "in", "o.wav", None),
    ]
    return out


@check("C19", "The command is interpreted on a set of virtual folder layouts (flat, nested, equal names, names a flattening would merge, links, relative and absolute "
       "spellings of the same place, results of an earlier run, output above, below or inside the input). Every path written is resolved through links.",
       "effect analysis over a virtual file system: written paths are disjoint from the wav files read and pairwise distinct; one result per recording, from that recording, inside the requested output")
def c19(prog, R, tier):
    deep = tier == "thorough"
    vals.record_defs(True)
    for nm, lay, i, o_, must in layouts(deep):
        for extra in ([], ["-q"]) if not deep else ([], ["-q"], ["--algo", "five"], ["-m", "3", "-s", "3"]):
            ctx = "%s%s" % (nm, " (%s)" % " ".join(extra) if extra else "")
            outs, comp = multi(prog, R, lambda I: files_run(I, lay, i, o_, extra), ctx)
            for o in outs:
                files_verdict(R, outs, o, lay, i, o_, must, ctx, nm)


def files_run(I, lay, i, o_, extra):
    I.flags["model_hook"] = source_hook()
    I.vfs = {}
    for p in lay:
        d = p
        while d != "/":
            d = d.rsplit("/", 1)[0] or "/"
            if d != "/":
                I.vfs.setdefault(d, ("dir",))
    lay = dict(I.vfs, **lay)
    lay.setdefault("/work", ("dir",))
    I.flags["vfs0"] = dict(lay)
    argv = [i, o_, "--model-type", "laplace", "--nfft", "256", "-n", "1"] + list(extra)
    err = None
    I.vfs = dict(lay)
    inp = vfs.PathV(i)
    wavs = sorted(c.p for c in (vfs.walk(I, inp, True) if vfs.is_dir(I, inp) else [inp]) if c.p.endswith(".wav") and not vfs.is_dir(I, c))
    real = {w: vfs.resolve(I, vfs.PathV(w)) for w in wavs}
    I.events[:] = []
    try:
        run_cli(I, argv, lay, 4, 1024)
    except AbsRaise as e:
        err = e
    return wavs, real, err


def files_verdict(R, outs, o, lay, i, o_, must, ctx, nm):
    if o.cut or o.exc:
        R.unk("analysed", ctx, o.cut or o.exc)
        return
    wavs, real, err = o.value
    if not clean(o) or witness(o) is None:
        R.unk("analysed", ctx, "path depends on guessed conditions")
        return
    I = o.I
    src = set(real.values())
    wr = events(I, "file_write") + events(I, "file_remove")
    ok = True
    for e in wr:
        if e[2] is None:
            R.unk("written path", ctx, "path not tracked")
            return
        now = vfs.resolve(I, vfs.PathV(e[2]))
        if now in src or e[2] in src:
            ok = False
            R.bad("input-kept", e[1], "the recording %s is %s (input %s, output %s)" % (now if now in src else e[2], "removed" if e[0] == "file_remove" else "overwritten", i, o_), ctx, key=nm)
    for w in src:
        if I.vfs.get(w) != I.flags["vfs0"].get(w):
            if ok:
                R.bad("input-kept", None, "the recording %s is changed" % w, ctx, key=nm)
            ok = False
    if ok:
        R.ok("input-kept", ctx)
    saves = events(I, "audio_save")
    if err is not None:
        if must:
            R.bad("served", err.site, "the request fails: %s" % err, ctx, key=nm)
        else:
            R.ok("refused", ctx, err)
            if err.kind in ("NameError", "UnboundLocalError", "TypeError", "AttributeError"):
                R.bad("served", err.site, "accidental failure: %s" % err, ctx, key=nm)
        return
    if any(e[2] is None for e in saves):
        R.unk("one-result-each", ctx, "path not tracked")
        return
    # who is saved where
    targets = {}
    for e in saves:
        tgt = vfs.resolve(I, vfs.PathV(e[2]))
        who = label_of(e[3])
        if tgt in targets and targets[tgt] != who or (tgt in targets and who is None):
            R.bad("one-result-each", e[1], "the results of %s and %s are both written to %s" % (targets[tgt], who, tgt), ctx, key=nm)
            return
        targets[tgt] = who
    got = set(targets.values())
    if None in got:
        if len(targets) != len(wavs):
            R.bad("one-result-each", None, "%d recordings, %d results" % (len(wavs), len(targets)), ctx, key=nm)
        else:
            R.unk("one-result-each", ctx, "origin of a result not tracked")
        return
    miss = [w for w in wavs if w not in got and vfs.absn(vfs.PathV(w)) not in {vfs.absn(vfs.PathV(g)) for g in got}]
    if miss:
        R.bad("one-result-each", None, "no result is written for %s (saved: %s)" % (", ".join(miss), targets), ctx, key=nm)
        return
    lost = [t for t in targets if not (I.vfs.get(t) or ("",))[0] == "file"]
    if lost:
        R.bad("one-result-each", None, "the result %s is gone at the end" % lost, ctx, key=nm)
        return
    R.ok("one-result-each", ctx, targets)
    # inside the requested place
    want = vfs.resolve(I, vfs.PathV(o_))
    isd = vfs.is_dir(I, vfs.PathV(o_))
    for t in targets:
        if (isd and not t.startswith(want.rstrip("/") + "/") and not any(v[0] == "link" for v in lay.values())) or (not isd and t != want):
            R.bad("place", None, "the result is written to %s, requested was %s" % (t, o_), ctx, key=nm)
            return
    R.ok("place", ctx)


def label_of(t):
    """the recording a saved signal was computed from"""
    if not isinstance(t, T):
        return None
    names = set()
    seen = set()

    def go(v):
        if isinstance(v, tuple):
            for x in v:
                go(x)
            return
        if not isinstance(v, str) or v in seen:
            return
        seen.add(v)
        if v.startswith("audio:"):
            names.add(v[6:])
            return
        e = vals.expr(v)
        if e is not None:
            go(e)
    go(t.vn)
    return names.pop() if len(names) == 1 else None


# ---------------------------------------------------------------------------
URL_A = "https://host.org/models/a"
OVERRIDES = [{}, {"n_iter": 3}, {"n_iter": 0}, {"n_taps": 0}, {"n_taps": 3}, {"n_delay": 2}, {"proj_back_mic": 2}, {"n_src": 2}, {"use_dmc": True}, {"eps": 1e-2},
             {"hop_length": 64}, {"n_fft": 1024}, {"window": "hamming"}, {"algo": "five"}, {"algo": "five", "n_power_iter": 3}, {"algo": "mvdr"}, {"algo": "gev", "proj_back_mic": 2},
             {"n_iter": 3, "n_taps": 2, "n_src": 2, "proj_back_mic": 1}, {"source_model": {"name": "torchiva.models.LaplaceModel"}}, {"source_model": None}]


def url_config(I, content):
    """the configuration stored at a URL depends on the URL"""
    if isinstance(content, tuple) and content and content[0] == "url":
        c = copy_conf(CONFIGS["a"])
        c["n_iter"] = url_iters(content[1])
        return c
    return config_hook(I, content)


def url_iters(url):
    return 2 + sum(map(ord, url.rsplit("/", 1)[0])) % 7


def loader_env(I, layout, algo=None):
    I.vfs = dict(layout)
    I.flags["cuda"] = False
    I.flags["config_hook"] = url_config
    I.flags["model_hook"] = mask_hook(None, 2, 2) if algo in ("mvdr", "gev") else source_hook()
    return S(I)


def load(I, fn, *a, **k):
    n = len(I.events)
    try:
        fresh(I)
        f = pub(I, "load_separator") if fn == "load_separator" else pub(I, fn, "torchiva.loader")
        return I.call(f, list(a), dict(k)), n, None
    except AbsRaise as e:
        return None, n, e


def same_run(I, sep, kw, x):
    """does the loaded separator behave like one built from these options"""
    a, ia = traced(I, sep, x)
    fresh(I)
    ref = I.call(pub(I, "nn.BSSSeparator"), [], kw)
    b, ib = traced(I, ref, x)
    return a, ia, b, ib


def sig(I):
    return tensor(I, "x", [(P(3), "chan"), (P(4096), "time")], F32)


@check("C20", "The loader is interpreted on a virtual file system and network: folders and URLs (several spellings), every override, every missing file, and a download "
       "that is killed, disconnected or stopped by the user at every point, followed by a second call in the same cache. The content handed to torch.load and to the "
       "YAML reader, the strictness of load_state_dict, and the behaviour of the separator returned are compared with what the location holds.",
       "effect analysis with crash-point enumeration over a virtual file system, and value numbering of the separator against stored options updated by the overrides")
def c20(prog, R, tier):
    deep = tier == "thorough"
    # a folder, with overrides
    for form in ("str", "str/", "relative", "files", "files-path"):
        for ov in OVERRIDES if form in ("str", "files") or deep else OVERRIDES[:3]:
            for m in ("a", "b"):
                ctx = "load model %s from a folder (%s) with %s" % (m, form, show(ov) or "no overrides")
                outs, comp = multi(prog, R, lambda I: folder_run(I, form, m, ov), ctx)
                for o in outs:
                    folder_verdict(R, outs, o, m, ov, ctx)
    # missing pieces
    bad = dict(MODEL_FS)
    cases = []
    for fn in ("model_weights.ckpt", "model_config.yaml"):
        l = dict(MODEL_FS)
        del l["/models/a/" + fn]
        cases.append(("folder without %s" % fn, l, "/models/a"))
    l = {k: v for k, v in MODEL_FS.items() if not k.startswith("/models/a/")}
    cases.append(("empty folder", l, "/models/a"))
    cases.append(("path that does not exist", MODEL_FS, "/models/zzz"))
    cases.append(("relative path that does not exist", MODEL_FS, "models/a"))
    cases.append(("file instead of a folder", MODEL_FS, "/models/a/model_weights.ckpt"))
    cases.append(("empty path", {"/work": ("dir",)}, ""))
    cases.append(("unsupported scheme", MODEL_FS, "ftp://host.org/models/a"))
    for nm, lay, path in cases:
        ctx = "load from a %s" % nm
        outs, comp = multi(prog, R, lambda I: (loader_env(I, lay), load(I, "load_separator", path))[1], ctx)
        for o in outs:
            missing_verdict(R, outs, o, nm, ctx)
    for nm, w, c in (("missing weights", "/models/a/none.ckpt", "/models/a/model_config.yaml"), ("missing configuration", "/models/a/model_weights.ckpt", "/models/a/none.yaml")):
        for cv in (str, PathV):
            ctx = "load_separator_model with %s (%s)" % (nm, cv.__name__)
            outs, comp = multi(prog, R, lambda I: (loader_env(I, MODEL_FS), load(I, "load_separator_model", cv(w), cv(c)))[1], ctx)
            for o in outs:
                missing_verdict(R, outs, o, nm, ctx)
    # weights that do not fit
    ctx = "weights that do not fit the configuration"
    outs, comp = multi(prog, R, lambda I: (loader_env(I, MODEL_FS), I.flags.__setitem__("state_mismatch", True), load(I, "load_separator", "/models/a"))[2], ctx)
    for o in outs:
        missing_verdict(R, outs, o, "weights that do not fit", ctx, rule="strict")
    # URLs
    urls = [URL_A, URL_A + "/", "http://host.org/models/a", "https://other.org/models/a", "https://host.org/other/a", "https://host.org/models/b", "https://host.org:8080/models/a",
            "https://host.org/models/a_b", "https://host.org/models_a/b", "https://host.org/models/a%20b", "https://host.org/models-a"]
    for i, u in enumerate(urls):
        for ov in ({}, {"n_iter": 1, "proj_back_mic": 1}):
            ctx = "load %s with %s" % (u, show(ov) or "no overrides")
            outs, comp = multi(prog, R, lambda I: url_run(I, [u], ov), ctx)
            for o in outs:
                url_verdict(R, outs, o, u, ov, ctx, "first")
    for u in urls:
        for v in urls:
            if u == v or (deep or v == URL_A or u == URL_A):
                ctx = "load %s after %s" % (u, v)
                outs, comp = multi(prog, R, lambda I: url_run(I, [v, u], {}), ctx)
                for o in outs:
                    url_verdict(R, outs, o, u, {}, ctx, "cache")
    for fn in ("model_weights.ckpt", "model_config.yaml"):
        ctx = "%s missing on the server" % fn
        outs, comp = multi(prog, R, lambda I: url_run(I, [URL_A], {}, missing=fn), ctx)
        for o in outs:
            missing_verdict(R, outs, o, fn + " missing on the server", ctx)
        ctx = "%s missing on the server at first" % fn
        outs, comp = multi(prog, R, lambda I: url_run(I, [URL_A, URL_A], {}, missing=fn, heal=True), ctx)
        for o in outs:
            url_verdict(R, outs, o, URL_A, {}, ctx, "interrupted")
    # interrupted downloads
    for k in ((1, 2, 3) if deep else (1, 2)):
        ctx = "load a URL, interrupted up to %d times, then again" % k
        outs, comp = multi(prog, R, lambda I: url_run(I, [URL_A] * (k + 1), {}, interrupts=k), ctx, 2000 if deep else 200)
        if not comp:
            R.unk("interrupted", ctx, "not all crash points explored")
        for o in outs:
            url_verdict(R, outs, o, URL_A, {}, ctx + " (%s)" % "; ".join("%s: %s" % (e[2], e[3]) for e in events(o.I, "interrupted")), "interrupted")


def folder_run(I, form, m, ov):
    loader_env(I, MODEL_FS, ov.get("algo"))
    p = "/models/" + m
    if form == "str":
        r = load(I, "load_separator", p, **ov)
    elif form == "str/":
        r = load(I, "load_separator", p + "/", **ov)
    elif form == "relative":
        r = load(I, "load_separator", "../models/" + m, **ov)
    else:
        cv = str if form == "files" else PathV
        r = load(I, "load_separator_model", cv(p + "/model_weights.ckpt"), cv(p + "/model_config.yaml"), **ov)
    sep, n, e = r
    if e is not None:
        return r, None
    kw = copy_conf(CONFIGS[m])
    kw.update(ov)
    return r, same_run(I, sep, kw, sig(I))


def state_events(I, n):
    return events(I, "torch_load", n), events(I, "load_state_dict", n)


def loaded_ok(R, I, r, want, ctx, rule):
    """the weights loaded are those of the location, strictly, into the object returned"""
    sep, n, e = r
    tl, ls = state_events(I, n)
    if not ls:
        R.bad(rule, None, "no weights are loaded into the separator", ctx, key="%s:none" % rule)
        return False
    last = ls[-1]
    if last[2] is not sep:
        tgt = [x for x in ls if x[2] is sep]
        if not tgt:
            R.unk(rule, ctx, "weights are loaded into a part of the separator")
            return None
        last = tgt[-1]
    st = last[4]
    if st is not True and st is not None:
        R.bad("strict", last[1], "weights are loaded with strict=%r: missing or unexpected weights go unnoticed" % (st,), ctx, key="strict")
        return False
    sd = last[3]
    c = sd.args[0] if isinstance(sd, ExtObj) and sd.cls == "state" else None
    if c is None:
        R.unk(rule, ctx, "the weights loaded are not tracked: %r" % (sd,))
        return None
    if c != want:
        R.bad(rule, last[1], "the weights loaded are %s, requested were %s" % (c, want), ctx, key="%s:weights" % rule)
        return False
    return True


def folder_verdict(R, outs, o, m, ov, ctx):
    if o.cut:
        R.unk("loaded", ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, "loaded", outs, o, ctx)
        return
    r, cmp_ = o.value
    if not clean(o) or witness(o) is None:
        R.unk("loaded", ctx, "path depends on guessed conditions")
        return
    if r[2] is not None:
        R.bad("loaded", r[2].site, "a complete model is not loaded: %s" % r[2], ctx, key="%s:%s" % (r[2].kind, ",".join(sorted(ov))))
        return
    ok = loaded_ok(R, o.I, r, ("weights", m), ctx, "loaded")
    compare_run(R, cmp_, ctx, ",".join(sorted(ov)), ov)
    if ok:
        R.ok("loaded", ctx)


def compare_run(R, cmp_, ctx, key, ov):
    a, ia, b, ib = cmp_
    if b.exc is not None or a.exc is not None:
        if b.exc is None:
            R.bad("options", getattr(a.exc, "site", None), "the loaded separator fails: %s" % a.exc, ctx, key=key)
        else:
            R.unk("options", ctx, "direct separator fails: %s" % b.exc)
    elif ia == ib and ib:
        R.ok("options", ctx)
    elif ia and ib:
        R.bad("options", None, "the loaded separator does not behave like the stored configuration with %s" % (show(ov) or "nothing changed"), ctx, key=key)
    else:
        R.unk("options", ctx, "not tracked")


def missing_verdict(R, outs, o, nm, ctx, rule="missing"):
    if o.cut:
        R.unk(rule, ctx, o.cut)
        return
    if o.exc:
        R.ok(rule, ctx, o.exc)
        return
    if not clean(o) or witness(o) is None:
        R.unk(rule, ctx, "path depends on guessed conditions")
        return
    v = o.value
    rs = v[0] if isinstance(v, tuple) and isinstance(v[0], list) else [v]
    e = rs[-1][2]
    if e is None:
        R.bad(rule, None, "loading succeeds although: %s" % nm, ctx, key=nm)
    elif e.kind in ("NameError", "UnboundLocalError"):
        R.bad(rule, e.site, "fails by accident: %s" % e, ctx, key=nm)
    else:
        R.ok(rule, ctx, e)


def url_run(I, urls, ov, interrupts=0, missing=None, heal=False):
    loader_env(I, {"/work": ("dir",), vfs.HOME: ("dir",)})
    out = []
    for i, u in enumerate(urls):
        I.flags["interrupts"] = interrupts if i + 1 < len(urls) else 0
        if missing and not (heal and i + 1 == len(urls)):
            I.flags["url_missing"] = {u.rstrip("/") + "/" + missing}
        else:
            I.flags["url_missing"] = set()
        I.flags["pid"] = 100 + i
        before = I.flags["interrupts"]
        r = load(I, "load_separator", u, **(ov if i + 1 == len(urls) else {}))
        interrupts = I.flags["interrupts"]
        out.append(r)
    sep, n, e = out[-1]
    if e is not None:
        return out, None
    kw = copy_conf(CONFIGS["a"])
    kw["n_iter"] = url_iters(urls[-1].rstrip("/") + "/x")
    kw.update(ov)
    return out, same_run(I, sep, kw, sig(I))


def url_verdict(R, outs, o, u, ov, ctx, rule):
    if o.cut:
        R.unk(rule, ctx, o.cut)
        return
    if o.exc:
        exc_bad(R, rule, outs, o, ctx)
        return
    rs, cmp_ = o.value
    if not clean(o) or witness(o) is None:
        R.unk(rule, ctx, "path depends on guessed conditions")
        return
    r = rs[-1]
    I = o.I
    for i, x in enumerate(rs[:-1]):
        # an interrupted call must not return a separator
        if x[2] is None and i + 1 < len(rs):
            tl, ls = state_events(I, x[1])
            if not loaded_prefix(ls):
                R.bad(rule, None, "a call whose download was interrupted returns a separator without the requested weights", ctx, key=rule + ":early")
                return
    if r[2] is not None:
        part = r[2].kind in ("YAMLError",) or "corrupt" in str(r[2])
        R.bad(rule, r[2].site, "%s: %s" % ("a file left by an interrupted download is taken for the model" if part else "a model available at the URL is not loaded", r[2]), ctx,
              key="%s:%s" % (rule, r[2].kind))
        return
    w = u.rstrip("/") + "/model_weights.ckpt"
    ok = loaded_ok(R, I, r, ("url", w), ctx, rule)
    cl = [e for e in events(I, "config_load", r[1])]
    if cl and cl[0][2] != ("url", u.rstrip("/") + "/model_config.yaml"):
        R.bad(rule, cl[0][1], "the configuration read is %s, requested was the one at %s" % (cl[0][2], u), ctx, key=rule + ":config")
        ok = False
    compare_run(R, cmp_, ctx, rule, ov)
    if ok:
        R.ok(rule, ctx)


def loaded_prefix(ls):
    for x in ls:
        sd = x[3]
        c = sd.args[0] if isinstance(sd, ExtObj) and sd.cls == "state" else None
        if isinstance(c, tuple) and c[0] in ("url", "weights"):
            return True
        return False
    return False
