"""Everything the package is asked to do in the analyses that look at the whole of it (effects, name binding)."""
import posixpath
from .poly import P
from .vals import *
from . import scen, vfs
from .scen import S, pub, stft_input, source_hook, mask_hook, wpe_hook, tensor, batch
from .cases import algo_cases, BEAM
from .helpers import helper_cases
from .checks2 import Sep, sep_cases, ALGOS, BEAMS
from .checks3 import CALLS, setup, opt_val, use, fresh, opaque_model, show
from .checks4 import run_cli, CLI, CHANGES, CONFIGS, MODEL_FS, config_hook, url_config, layouts, D, W, DISPATCH, BASE, OVERRIDES

FS = {"/work": ("dir",), vfs.HOME: ("dir",)}


class Ctx:
    def __init__(self, kind, name, run, allowed=(), valid=True):
        self.kind, self.name, self.run, self.allowed, self.valid = kind, name, run, allowed, valid


def fs(I, extra=()):
    I.vfs = dict(FS, **dict(extra))
    I.flags["fs0"] = dict(I.vfs)
    I.flags["cuda"] = False


def contexts(prog, tier):
    deep = tier == "thorough"
    out = []

    def add(kind, name, run, **kw):
        def f(I):
            fs(I)
            return run(I)
        out.append(Ctx(kind, name, f, **kw))
    for m in sorted(prog.trees):
        if not m.startswith("tvdriver"):
            add("import", "import %s" % m, lambda I, m=m: I.import_module(m))
    for c in algo_cases(tier, models=True):
        add("algorithm", repr(c), lambda I, c=c: c.run(I))
    for h in helper_cases(tier, ranks=(0, 1, 2) if deep else (1,)):
        add("helper", repr(h), lambda I, h=h: h.run(I))
        if "net" in h.tags:
            add("helper", repr(h) + " in training mode", lambda I, h=h: train(I, h))
    for c in sep_cases(tier):
        add("separator", repr(c), lambda I, c=c: c.run(I))
    for name, (C, mk_, conf, over) in CALLS.items():
        alg = name.split("+")[0]
        for nb in (0, 1) if deep else (1,):
            for k, vs in over.items():
                for v in vs:
                    add("override", "%s configured %s, call with %s=%s batch-rank=%d" % (name, show(conf), k, v, nb),
                        lambda I, a=(alg, C, mk_, conf, {k: v}, nb): override(I, *a))
            add("override", "%s constructed with its defaults, batch-rank=%d" % (name, nb), lambda I, a=(alg, C, mk_, {}, {}, nb): override(I, *a))
    for alg in ("T_ISS", "AuxIVA_IP", "AuxIVA_IP2", "FIVE"):
        for m in (None, "default", "laplace", "gauss", "nmf", "stateful", "plain"):
            add("algorithm", "%s with model %s" % (alg, m), lambda I, alg=alg, m=m: with_model(I, alg, m))
    for name in DISPATCH:
        for mod in ("default", "dict"):
            if name not in BEAMS or mod == "dict":
                add("separator", "BSSSeparator(%s) with model %s" % (name, mod), lambda I, name=name, mod=mod: separator(I, name, mod))
    # a model that fails in the middle
    for alg in ("T_ISS", "AuxIVA_IP", "AuxIVA_IP2", "FIVE", "MVDRBeamformer", "MWFBeamformer", "GEVBeamformer", "WPE"):
        add("failing-model", "%s whose model fails" % alg, lambda I, alg=alg: failing(I, alg), valid=False)
    # command line
    for lay, argv, allowed in cli_requests(deep):
        l2 = dict(FS)
        for p in lay:
            d = p
            while "/" in d[1:]:
                d = d.rsplit("/", 1)[0]
                l2.setdefault(d, ("dir",))
        l2.update(lay)

        def run(I, l2=l2, argv=argv):
            I.flags["fs0"] = dict(l2)
            al = argv[argv.index("--algo") + 1] if "--algo" in argv else None
            I.flags["model_hook"] = mask_hook(None, 2, 4 if al == "mwf" else 2) if al in BEAMS else source_hook()
            I.flags["config_hook"] = url_config
            run_cli(I, list(argv), l2, 4, 4096)
        out.append(Ctx("command", "separate " + " ".join(argv), run, allowed=allowed))
    # loader
    for p, allowed in (("/models/a", ()), ("/models/b/", ()), ("https://host.org/models/a", ("%s/.torchiva_models" % vfs.HOME,))):
        for ov in OVERRIDES if deep or p == "/models/a" else OVERRIDES[:4]:
            def run(I, p=p, ov=ov):
                l2 = dict(FS, **MODEL_FS)
                I.vfs = dict(l2)
                I.flags.update(fs0=dict(l2), cuda=False, config_hook=url_config)
                a = ov.get("algo")
                I.flags["model_hook"] = mask_hook(None, 2, 2) if a in ("mvdr", "gev") else source_hook()
                sep = I.call(pub(I, "load_separator"), [p], dict(ov))
                return I.call(sep, [tensor(I, "x", [(P(3), "chan"), (P(4096), "time")], F32)], {})
            out.append(Ctx("loader", "load_separator(%s, %s) and use it" % (p, show(ov)), run, allowed=allowed))
    return out


def train(I, h):
    s = S(I)
    from .helpers import Env
    env = Env(I, s, h.nb, C64, "cpu", False, False)
    I.flags["model_hook"] = source_hook()
    f, a, k = h.build(I, s, env)
    I.call(I.getattr(f, "train"), [], {})
    return I.call(f, a, k)


def override(I, alg, C, mk_, conf, ov, nb):
    s, X = setup(I, alg, C, nb)
    m = {"M1": opaque_model(I, "M1"), "M2": opaque_model(I, "M2")}
    base = dict(conf)
    base[mk_] = "M1"
    val = lambda d: {k: opt_val(m, k, v) for k, v in d.items()}
    o = I.call(pub(I, alg), [], val(base))
    I.call(o, [X], val(ov))
    return I.call(o, [X], {})


def with_model(I, alg, m):
    s, X = setup(I, alg, 2 if alg == "AuxIVA_IP2" else None, 1)
    kw = dict(n_iter=2)
    if m == "default":
        pass
    elif m is None:
        kw["model"] = None
    elif m in ("stateful", "plain"):
        kw["model"] = opaque_model(I, "m", m)
    else:
        kw["model"] = scen.model_obj(I, m)
    return I.call(I.call(pub(I, alg), [], kw), [X], {})


def separator(I, name, mod):
    cls, C, mp, fixed = DISPATCH[name]
    I.flags["model_hook"] = mask_hook(None, 2, 4 if name == "mwf" else 2) if name in BEAMS else source_hook()
    kw = dict(BASE)
    if mod == "dict":
        kw["source_model"] = {"name": "tvdriver.OpaqueModel"}
    sep = I.call(pub(I, "nn.BSSSeparator"), [512], dict(kw, algo=name))
    x = tensor(I, "x", [(P(2), "batch"), (P(C), "chan"), (P(4096), "time")], F32)
    return I.call(sep, [x], {})


def failing(I, alg):
    s, X = setup(I, alg, 2 if alg == "AuxIVA_IP2" else None, 1)
    inner = I.flags["model_hook"]

    def hook(I_, *a, **k):
        n = I_.flags["calls"] = I_.flags.get("calls", 0) + 1
        if alg in BEAM or n == 2:
            I_.error("RuntimeError", "the model fails", "model")
        return inner(I_, *a, **k)
    I.flags["model_hook"] = hook
    m = opaque_model(I, "m")
    return I.call(I.call(pub(I, alg), [], {"mask_model" if alg in BEAM else "model": m} if alg in BEAM else dict(model=m, n_iter=3)), [X], {})


def cli_requests(deep):
    """(layout, arguments, what may be written)"""
    one = {"/work/in.wav": ("file", ("audio", "in"))}
    out = []
    for algo, model in ((None, "laplace"), ("tiss", "gauss"), ("tiss", "nmf"), ("ip2", "laplace"), ("five", "laplace"), ("five", "nmf")):
        base = ["in.wav", "out.wav", "--model-type", model] + (["--algo", algo] if algo else [])
        ex = [[]]
        for k, vs in CHANGES.items():
            ex += [[CLI[k][0], str(v)] for v in vs if not (algo == "ip2" and (k == "mic" or v == 3 and k == "src" or v == 2 and k == "ref"))]
        ex.append(["-q"])
        for e in ex if deep or algo in (None, "five") else ex[:2]:
            if e[:1] == ["-s"] and e[1] == "3":
                e = e + ["-m", "3"]
            if e[:1] == ["--ref"]:
                e = e + ["-m", "3"]
            out.append((one, base + e, ("/work/out.wav",)))
    for algo in (None,) + tuple(ALGOS):
        mic = "2" if algo == "ip2" else "3"
        for e in ([], ["-q"]) if deep else ([],):
            out.append((MODEL_FS, ["in.wav", "out.wav", "--model-path", "/models/a", "-m", mic, "-s", "2"] + (["--algo", algo] if algo else []) + e, ("/work/out.wav",)))
    out.append((one, ["in.wav", "out.wav", "--model-path", "https://host.org/models/a", "-m", "3"], ("/work/out.wav", "%s/.torchiva_models" % vfs.HOME)))
    for nm, lay, i, o_, must in layouts(deep):
        if must:
            w = posixpath.normpath(vfs.absn(vfs.PathV(o_)))
            out.append((lay, [i, o_, "--model-type", "laplace", "--nfft", "256", "-n", "1"], (w,)))
    return out
