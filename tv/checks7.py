"""Shipped configurations and the exporter."""
import json
import os
import yaml
from .poly import P
from .vals import *
from .interp import Program
from . import scen, vfs
from .scen import pub, tensor
from .checks import check, multi, clean, definite_exc, witness, wtext, exc_bad, shape_verdict
from .checks4 import events
from .contexts import FS

SKIP = {".git", "docs", "build", "dist", "__pycache__", "tests", "samples", "node_modules"}

LIGHTNING = '''
import torch
import yaml

class LightningModule(torch.nn.Module):
    """what the examples use of the training framework"""
    def save_hyperparameters(self, *args, **kwargs):
        pass
    @classmethod
    def load_from_checkpoint(cls, checkpoint_path, map_location=None, hparams_file=None, strict=True, **kwargs):
        with open(hparams_file, "r") as f:
            hparams = yaml.safe_load(f)
        return cls(**hparams)
'''
HELPERS = '''
import yaml
from separation_model import WSJModel

def load_model(hparams_file, epoch=-1, eval=True):
    with open(hparams_file, "r") as f:
        hparams = yaml.safe_load(f)
    model = WSJModel.load_from_checkpoint(checkpoint_path="x", hparams_file=hparams_file)
    __tv_trained__(model.separator)
    return hparams, model.separator

def load_ensemble_model(hparams_file, epochs, eval=True):
    return load_model(hparams_file)
'''
STUBS = {"pytorch_lightning": LIGHTNING, "fast_bss_eval": "def sdr_pit_loss(*args, **kwargs):\n    raise NotImplementedError()\n",
         "autoclip_module": "class AutoClipper:\n    def __init__(self, *args, **kwargs):\n        pass\n", "test": HELPERS}
OUT = "/work/exported"
HP = "/work/exp"


def shipped(root):
    """[(path, kind, data or error)] of the stored configurations in the repository"""
    out = []
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in SKIP and not d.startswith(".") and not d.endswith(".egg-info"))
        for f in sorted(fn):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, root)
            if not f.endswith((".json", ".yaml", ".yml")):
                continue
            near = f == "model_config.yaml" or "configs" in rel.split(os.sep) or "trained_models" in rel.split(os.sep)
            try:
                with open(p) as fh:
                    d = json.load(fh) if f.endswith(".json") else yaml.safe_load(fh)
            except Exception as e:
                if near:
                    out.append((rel, "broken", "%s: %s" % (type(e).__name__, str(e).split("\n")[0])))
                continue
            if isinstance(d, dict) and isinstance(d.get("model"), dict) and "n_fft" in d["model"]:
                out.append((rel, "training", d))
            elif isinstance(d, dict) and ("n_fft" in d or "source_model" in d):
                out.append((rel, "model", d))
            elif near:
                out.append((rel, "broken", "is not a configuration of a model"))
    return out


def example_program(root):
    prog = Program(root)
    scen.install(prog)
    for f in ("separation_model", "export_model"):
        p = os.path.join(root, "examples", f + ".py")
        with open(p) as fh:
            src = fh.read()
        name = "__main__" if f == "export_model" else f
        prog.add_virtual(name, src)
        prog.files[name] = p
    for name, src in STUBS.items():
        prog.add_virtual(name, src)
    return prog


def base(I, data=()):
    I.vfs = dict(FS)
    I.vfs.update(data)
    I.flags["cuda"] = False
    I.flags["state_objects"] = True


def signal(I, nb, C, T_):
    return tensor(I, "x", [(P(2), "batch")] * nb + [(P(C), "chan"), (P(T_), "time")], F32)


def options(o, pre="", seen=None):
    """the settings an object and the parts it is made of were built with"""
    seen = set() if seen is None else seen
    out = {}
    if id(o) in seen:
        return out
    seen.add(id(o))
    out[pre + "class"] = o.cls.name
    for k, v in o.attrs.items():
        if isinstance(v, Obj):
            if getattr(v.cls, "name", "") == "SepAlgo" or "value" in v.attrs and "name" in v.attrs:
                out[pre + k] = v.attrs.get("value")
            else:
                out.update(options(v, pre + k + ".", seen))
        elif isinstance(v, (int, float, str, bool)) or v is None:
            out[pre + k] = v
    return out


def run_verdict(R, outs, o, rule, ctx, key, site=None):
    """True when the path ended with a value"""
    if o.cut:
        R.unk(rule, ctx, o.cut)
        return False
    if witness(o) is None:
        return False
    if o.exc:
        if definite_exc(outs, o):
            R.bad(rule, o.exc.site, "%s%s" % (o.exc, wtext(o)), ctx, key=key)
        else:
            R.unk(rule, ctx, "raises on a guessed path: %s" % o.exc)
        return False
    return True


LENGTHS = (32000, 80001)


@check("C23", "Every stored configuration found in the repository is parsed; the loader (for a model folder) and the training module of the examples (for a training "
       "configuration) are interpreted on it, down to the constructors of the networks and of the separation algorithm, and the separator is applied to symbolic signals of the "
       "configured and other numbers of channels. The export script is interpreted on a virtual file system for every training configuration, the loader on the folder it wrote, "
       "and the settings and weights of the two separators are compared.",
       "abstract interpretation of the loader, the constructors and the separator on the stored values: no path raises, the result has the shape of the request; "
       "the separator read back has the exported settings and receives the exported state")
def c23(prog, R, tier):
    deep = tier == "thorough"
    conf = shipped(prog.root)
    if not any(k == "model" for _, k, _ in conf):
        R.bad("shipped", None, "no stored model configuration is found", "repository", key="none")
    ex = None
    for rel, kind, d in conf:
        if kind == "broken":
            R.bad("readable", None, "%s %s" % (rel, d), rel, key=rel)
            continue
        R.ok("readable", rel)
        if kind == "model":
            stored(prog, R, rel, d, deep)
        else:
            if ex is None:
                ex = example_program(prog.root)
            training(ex, R, rel, d, deep)
            exported(ex, R, rel, d, deep)


def stored(prog, R, rel, d, deep):
    def load(I, over):
        base(I, {"/m": ("dir",), "/m/model_config.yaml": ("file", ("data", vfs.freeze(d))), "/m/model_weights.ckpt": ("file", ("weights", "m"))})
        return I.call(pub(I, "load_separator"), ["/m"], over)
    algo = d.get("algo", "tiss")
    for C, n_src in ((2, None), (3, None), (6, None)) + (((3, 2), (6, 2)) if algo == "tiss" and d.get("n_src") is None else ()):
        if algo == "ip2" and C != 2:
            continue
        for nb in (0, 1):
            for T_ in LENGTHS + ((48000, 160000) if deep else ()):
                ctx = "%s: load and separate %d channels%s, batch-rank=%d, %d samples" % (rel, C, " into %d" % n_src if n_src else "", nb, T_)

                def run(I):
                    sep = load(I, {"n_src": n_src} if n_src else {})
                    return I.call(sep, [signal(I, nb, C, T_)], {})
                outs, _ = multi(prog, R, run, ctx)
                for o in outs:
                    if run_verdict(R, outs, o, "loads-and-runs", ctx, rel):
                        n = n_src or d.get("n_src") or (C if algo in ("tiss", "ip2") else 1 if algo == "five" else None)
                        shape(R, o, ctx, rel, nb, n, T_)


def shape(R, o, ctx, rel, nb, n, T_):
    if n is None:
        n = o.value.shape[-2].size if isinstance(o.value, T) and o.value.shape is not None and len(o.value.shape) >= 2 else 1
    ok, why = shape_verdict(o.I, o.value, [P(2)] * nb + [P(n), P(T_)])
    if ok is False:
        R.bad("result-shape", None, why, ctx, key=rel)
    elif ok is None:
        R.unk("result-shape", ctx, why)
    else:
        R.ok("loads-and-runs", ctx)


def conf_chan(d):
    return d.get("training", {}).get("n_chan", 2)


def training(prog, R, rel, d, deep):
    n_src = d.get("training", {}).get("n_src")
    for C in sorted({conf_chan(d), 2, 3, 6} if deep else {conf_chan(d), 3}):
        for nb in (0, 1) if deep else (1,):
            for T_ in LENGTHS:
                ctx = "%s: training module on %d channels, batch-rank=%d, %d samples" % (rel, C, nb, T_)

                def run(I):
                    base(I)
                    m = I.call(I.getattr(I.import_module("separation_model"), "WSJModel"), [vfs.thaw(vfs.freeze(d))], {})
                    return I.call(m, [signal(I, nb, C, T_)], {})
                outs, _ = multi(prog, R, run, ctx)
                for o in outs:
                    if run_verdict(R, outs, o, "loads-and-runs", ctx, rel):
                        shape(R, o, ctx, rel, nb, n_src, T_)


def algorithm(sep):
    """the class of the separation algorithm a separator runs"""
    if not isinstance(sep, Obj):
        return None
    return next((v.cls.name for k, v in sorted(sep.attrs.items()) if isinstance(v, Obj) and k.lstrip("_") == "separator"), None) or options(sep).get("algo")


def same_algorithm(kept, plain):
    a = algorithm(kept[0]) if kept else None
    b = algorithm(plain)
    return None if a is None or b is None else a == b


def exported(prog, R, rel, d, deep):
    hp = {"config": d}
    C = conf_chan(d)
    ctx = "%s: export, load, separate" % rel

    def run(I):
        base(I, {HP: ("dir",), HP + "/hparams.yaml": ("file", ("data", vfs.freeze(hp))), HP + "/checkpoints": ("dir",), HP + "/checkpoints/epoch=3-step=1.ckpt": ("file", ("weights", "e"))})
        kept = []
        I.flags["argv"] = [OUT, HP, "3"]
        I.flags["trained_hook"] = kept.append
        I.import_module("__main__")
        plain = I.call(pub(I, "load_separator"), [OUT], {})
        n = len(I.events)
        sep = I.call(pub(I, "load_separator"), [OUT], {} if same_algorithm(kept, plain) else {"algo": d["algorithm"]})
        y = I.call(sep, [signal(I, 1, C, 32000)], {})
        return kept[0] if kept else None, plain, sep, y, events(I, "load_state_dict", n)
    outs, _ = multi(prog, R, run, ctx)
    for o in outs:
        if not run_verdict(R, outs, o, "exports-and-loads", ctx, rel):
            continue
        a, plain, b, y, lsd = o.value
        same = same_algorithm([a] if a else [], plain)
        if same is None:
            R.unk("exported-algorithm", ctx, "the separators are not tracked")
        elif not same:
            R.bad("exported-algorithm", None, "the exported model is read back with another separation algorithm: %s instead of %s" % (algorithm(plain), algorithm(a)), ctx, key=rel)
        else:
            R.ok("exported-algorithm", ctx)
        ok, why = shape_verdict(o.I, y, [P(2), P(d.get("training", {}).get("n_src", 2)), P(32000)])
        if ok is False:
            R.bad("exports-and-loads", None, "the exported separator: " + why, ctx, key=rel)
        if not isinstance(a, Obj) or not isinstance(b, Obj):
            R.unk("same-settings", ctx, "the separators are not tracked")
            continue
        A, B = options(a), options(b)
        # the number of sources is chosen by the user of the exported model
        diff = sorted(k for k in set(A) | set(B) if A.get(k) != B.get(k) and k.rsplit(".", 1)[-1].lstrip("_") not in ("n_src", "training") and clean(o))
        if diff:
            R.bad("same-settings", None, "the exported model is read back with other settings: " + ", ".join("%s %r instead of %r" % (k, B.get(k), A.get(k)) for k in diff[:4]), ctx, key="%s:%s" % (rel, diff[0]))
        else:
            R.ok("same-settings", ctx, "%d settings" % len(A))
        st = [e[3] for e in lsd]
        owner = [s.args[0][1] if isinstance(s, ExtObj) and s.cls == "state" and isinstance(s.args[0], tuple) and s.args[0][:1] == ("state-of",) else None for s in st]
        strict = all(e[4] is not False for e in lsd)
        if not st:
            R.bad("same-weights", None, "no weights are loaded", ctx, key=rel)
        elif owner[-1] is None:
            R.unk("same-weights", ctx, "the state is not tracked")
        elif owner[-1] is not a or not strict:
            R.bad("same-weights", lsd[-1][1], "the weights loaded are the state of a %s%s" % (owner[-1].cls.name, "" if strict else ", not checked for completeness"), ctx, key=rel)
        else:
            R.ok("same-weights", ctx)
