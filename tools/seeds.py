"""Planted bugs: (id, property, needs, breaks, edits, demo)."""
PRE = '''import torch, torchiva, sys
torch.manual_seed(0)
def cpx(*s, dtype=torch.complex128):
    return torch.randn(*s, dtype=dtype)
'''
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))


seed("c02-load-global", "C02", "a batch whose items have very different levels",
     "the diagonal loading of a solve is scaled by the largest value of the whole batch",
     [("torchiva/linalg.py", '''def inv_loaded(A: pt.Tensor, load=1e-6):
    eye = pt.eye(A.shape[-1]).type_as(A)
    load_factor = (
        load * A.abs().max(dim=-2, keepdim=True).values.max(dim=-1, keepdim=True).values
    )
''', '''def inv_loaded(A: pt.Tensor, load=1e-6):
    eye = pt.eye(A.shape[-1]).type_as(A)
    load_factor = load * A.abs().max()
''')],
     '''
A = cpx(2, 3, 3)
A[1] *= 1e3
a = torchiva.linalg.inv_loaded(A)[0]
b = torchiva.linalg.inv_loaded(A[:1])[0]
sys.exit(0 if (a - b).abs().max() < 1e-9 else 1)
''')

seed("c10-conj-proj", "C10", "complex-valued mixing with a phase difference between microphones and n_src < n_chan, reference among the background channels",
     "projection back in the overdetermined case uses the conjugate of the background filter",
     [("torchiva/t_iss.py", '''            rhs = J[..., [ref_mic - n_src], :, :]
''', '''            rhs = J[..., [ref_mic - n_src], :, :].conj()
''')],
     '''
X = cpx(3, 6, 80)
alg = torchiva.T_ISS(n_iter=3, n_src=2, proj_back_mic=2)
Y = alg(X)
ph = torch.exp(1j * torch.rand(3, 6, 1, dtype=torch.float64) * 6)
Y2 = alg(X * ph)
sys.exit(0 if (Y2 - Y * ph[[2]]).abs().max() < 1e-6 * Y.abs().max() else 1)
''')

seed("c14-delay", "C14", "taps without a dereverberation delay (n_delay=0)",
     "without delay the dereverberating separator predicts from the current frame itself",
     [("torchiva/t_iss.py", '''        X_bar = X_hankel[..., : -n_delay - 1, :]  # shape (c, f, t, b)

        if is_overdet:''', '''        X_bar = X_hankel[..., int(n_delay == 0) :, :][..., :n_taps, :]  # shape (c, f, t, b)

        if is_overdet:''')],
     '''
X = cpx(2, 4, 40)
alg = torchiva.T_ISS(n_iter=1, n_taps=2, n_delay=0, proj_back_mic=None)
seen = {}
import torchiva.t_iss as t
orig = t.demix_derev
def spy(X, Xb, W, H):
    seen["Xb"] = Xb
    return orig(X, Xb, W, H)
t.demix_derev = spy
alg(X)
Xb = seen["Xb"]
# tap order: the last tap is the closest past frame, n - n_delay - 1
ok = torch.allclose(Xb[..., -1, 5], X[..., 4]) and torch.allclose(Xb[..., 0, 5], X[..., 3])
sys.exit(0 if ok else 1)
''')

seed("c05-ip2-inplace", "C05", "a caller that reads the STFT again after separation with the two-channel algorithm",
     "the two-channel separator rescales the caller's tensor in place",
     [("torchiva/auxiva_ip2.py", '''            X = divide(X, torch.sqrt(g))
''', '''            X /= torch.sqrt(g)
''')],
     '''
X = cpx(2, 4, 40)
X0 = X.clone()
torchiva.AuxIVA_IP2(n_iter=1)(X)
sys.exit(0 if torch.equal(X, X0) else 1)
''')

# ---------------------------------------------------------------- second round
seed("c01-ip-twobatch", "C01", "an overdetermined separation with a batch dimension and a reference among the background channels",
     "the right hand side of projection back loses its batch dimensions",
     [("torchiva/auxiva_ip.py", '''            e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
''', '''            e1 = C[..., [ref_mic - n_src], :].reshape(-1, n_src, 1)
''')],
     '''
from torchiva.auxiva_ip import AuxIVA_IP
X = cpx(2, 3, 4, 6, 40)
alg = AuxIVA_IP(n_iter=1, n_src=2, proj_back_mic=3)
ref = torch.stack([torch.stack([alg(x) for x in y]) for y in X])
try:
    Y = alg(X)
except Exception:
    sys.exit(1)
sys.exit(0 if Y.shape == ref.shape and torch.allclose(Y, ref) else 1)
''')

seed("c02-glu-level", "C02", "a batch whose items have different levels, with a gated mask network",
     "the level normalisation of the mask network averages over the batch",
     [("torchiva/models/glu.py", '''        g = torch.clamp(torch.mean(X_pwr, dim=(-2, -1), keepdim=True), min=1e-5)
''', '''        g = torch.clamp(torch.mean(X_pwr), min=1e-5)
''')],
     '''
torch.manual_seed(1)
m = torchiva.models.GLUMask(17, 8).eval()
X = torch.randn(2, 17, 20, dtype=torch.complex64)
X[1] *= 30
with torch.no_grad():
    a, b = m(X)[0], m(X[:1])[0]
sys.exit(0 if torch.allclose(a, b, atol=1e-5) else 1)
''')

seed("c02-wpe-order", "C02", "dereverberation with two batch dimensions",
     "the correlation matrices of the items are flattened in another order than the right hand sides",
     [("torchiva/wpe.py", '''    xcv = torch.einsum("...fn,...cftn,...sfn->...fcts", weights, X_bar, X.conj())
''', '''    xcv = torch.einsum("...fn,...cftn,...sfn->...fcts", weights, X_bar, X.conj())
    if len(batch_shape) == 2:
        xcv = xcv.transpose(0, 1)
''')],
     '''
X = cpx(2, 2, 2, 4, 60)
alg = torchiva.WPE(n_iter=1, n_taps=2, n_delay=1)
a = alg(X)[0, 1]
b = alg(X[0, 1])
sys.exit(0 if torch.allclose(a, b) else 1)
''')

seed("c03-evd-single", "C03", "double precision input and the single-matrix 2x2 eigen-decomposition",
     "the eigenvalues are held in single precision",
     [("torchiva/linalg.py", '''        eigenvalues = delta.new_zeros(A.shape[:-1])
        eigenvalues[..., 0] = 0.5 * (trace - pt.sqrt(delta))  # small eigenvalue
''', '''        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
        eigenvalues[..., 0] = 0.5 * (trace - pt.sqrt(delta))  # small eigenvalue
''')],
     '''
A = cpx(5, 2, 2)
A = A @ A.transpose(-2, -1).conj()
w, v = torchiva.linalg.eigh_2x2(A)
sys.exit(0 if w.dtype == torch.float64 and torch.allclose(w, torch.linalg.eigvalsh(A), rtol=1e-10) else 1)
''')

seed("c03-nmf-cast", "C03", "double precision input and the low-rank source model",
     "the power spectrogram passes through single precision",
     [("torchiva/models/classic.py", '''        # squared magnitude of the spectrums
        P = mag_sq(X)
''', '''        # squared magnitude of the spectrums
        P = mag_sq(X).to(self.dtype).to(X.real.dtype)
'''), ("torchiva/models/classic.py", '''        self._eps = eps if eps is not None else eps_models["nmf"]
        self.n_basis = n_basis
''', '''        self._eps = eps if eps is not None else eps_models["nmf"]
        self.n_basis = n_basis
        self.dtype = pt.get_default_dtype()
''')],
     '''
m = torchiva.NMFModel()
X = cpx(2, 5, 20)
torch.manual_seed(3)
a = m(X)
torch.set_default_dtype(torch.float64)
m = torchiva.NMFModel()
torch.manual_seed(3)
b = m(X)
sys.exit(0 if torch.allclose(a, b, rtol=1e-12, atol=0) else 1)
''')

seed("c05-solve-diag", "C05", "a caller that keeps the matrix it passed to the loaded solver",
     "the diagonal loading is added to the caller's matrix",
     [("torchiva/linalg.py", '''    return pt.linalg.solve(A + load_factor * eye, b)
''', '''    A.diagonal(dim1=-2, dim2=-1).add_(load_factor[..., 0])
    return pt.linalg.solve(A, b)
''')],
     '''
A, b = cpx(4, 3, 3), cpx(4, 3, 1)
A0 = A.clone()
torchiva.linalg.solve_loaded(A, b)
sys.exit(0 if torch.equal(A, A0) else 1)
''')

seed("c06-five-sticky", "C06", "a second call of the extractor after one that asked for power iterations",
     "the number of power iterations given for one call is kept",
     [("torchiva/five.py", '''        # for now, only supports determined case
        assert callable(model)
''', '''        # for now, only supports determined case
        assert callable(model)
        self.n_power_iter = n_power_iter
''')],
     '''
X = cpx(3, 5, 60)
alg = torchiva.FIVE(n_iter=2)
a = alg(X)
alg(X, n_power_iter=1)
b = alg(X)
sys.exit(0 if torch.equal(a, b) else 1)
''')

seed("c07-reset-own", "C07", "a low-rank source model passed at call time and reused for another signal",
     "the source model of the object is reset instead of the one in use",
     [("torchiva/t_iss.py", '''        self._reset(model)
''', '''        self._reset(self.model)
''')],
     '''
m = torchiva.NMFModel()
alg = torchiva.T_ISS(n_iter=2)
X1, X2 = cpx(2, 5, 40), cpx(2, 5, 40)
torch.manual_seed(5); a = alg(X2, model=m)
m.reset()
alg(X1, model=m)
torch.manual_seed(5); b = alg(X2, model=m)
sys.exit(0 if torch.allclose(a, b) else 1)
''')

seed("c07-warm-start", "C07", "two signals of the same size processed one after the other",
     "separation starts from the demixing matrix of the previous call",
     [("torchiva/t_iss.py", '''        W[...] = eye[:, None, :]
''', '''        if self.W is not None and self.W.shape == W.shape and is_overdet:
            W[...] = self.W.detach()
        else:
            W[...] = eye[:, None, :]
''')],
     '''
alg = torchiva.T_ISS(n_iter=2, n_src=2)
X1, X2 = cpx(3, 5, 40), cpx(3, 5, 40)
a = alg(X2)
alg(X1)
b = alg(X2)
sys.exit(0 if torch.allclose(a, b) else 1)
''')

seed("c11-nmf-floor", "C11", "a recording that contains digital silence, with the low-rank source model",
     "the basis is no longer kept away from zero",
     [("torchiva/models/classic.py", '''        self.T = pt.clamp(self.T, min=self._eps)

''', '''
''')],
     '''
X = cpx(2, 5, 30) * 0
Y = torchiva.T_ISS(n_iter=3, model=torchiva.NMFModel())(X)
X = cpx(2, 5, 30)
X[:, 2] = 0
m = torchiva.NMFModel()
ok = bool(torch.isfinite(Y).all())
for i in range(4):
    ok = ok and bool(torch.isfinite(m(X * 0)).all()) and bool(torch.isfinite(m.T).all())
sys.exit(0 if ok else 1)
''')

seed("c12-default-hop", "C12", "no explicit hop and a length that is not a multiple of the default hop",
     "the missing samples are counted with the wrong default hop",
     [("torchiva/nn.py", '''            y = torch.cat(
                (y, y.new_zeros(y.shape[:-1] + (x.shape[-1] - y.shape[-1],))), dim=-1
            )
''', '''            hop = self.stft.hop_length or self.stft.n_fft // 2
            y = torch.cat(
                (y, y.new_zeros(y.shape[:-1] + (x.shape[-1] % hop,))), dim=-1
            )
''')],
     '''
sep = torchiva.nn.BSSSeparator(64, n_iter=1)
ok = all(sep(torch.randn(2, n)).shape[-1] == n for n in (640, 645, 650, 660, 671))
sys.exit(0 if ok else 1)
''')

seed("c13-window-plain", "C13", "an analysis/synthesis object moved to another precision or device",
     "the window is a plain attribute that does not follow the module",
     [("torchiva/stft.py", '''        self.register_buffer("_window", window)
''', '''        self._window = window
''')],
     '''
s = torchiva.STFT(64).double()
sys.exit(0 if s.window.dtype == torch.float64 else 1)
''')

seed("c13-inv-order", "C13", "two or more leading dimensions in the inverse transform",
     "the leading dimensions are exchanged before flattening",
     [("torchiva/stft.py", '''        # flatten th batch and channels
        x = x.reshape((-1, n_freq, n_frames))
''', '''        # flatten th batch and channels
        x = x.transpose(0, -3).reshape((-1, n_freq, n_frames))
''')],
     '''
s = torchiva.STFT(64)
x = torch.randn(3, 2, 640)
y = s.inv(s(x))
sys.exit(0 if y.shape == x.shape and torch.allclose(x, y, atol=1e-4) else 1)
''')

seed("c14-edge", "C14", "the first frames of the recording",
     "frames before the start repeat the first frame instead of being silent",
     [("torchiva/wpe.py", '''        X_pad = torch.nn.functional.pad(X, (n_taps + n_delay, 0))
''', '''        X_pad = torch.cat(
            (X[..., :1].expand(X.shape[:-1] + (n_taps + n_delay,)), X), dim=-1
        )
''')],
     '''
X = cpx(2, 4, 60)
Y = torchiva.WPE(n_iter=1, n_taps=2, n_delay=2)(X)
sys.exit(0 if torch.allclose(Y[..., :3], X[..., :3]) else 1)
''')

seed("c16-mask-above", "C16", "a confident mask network for beamforming",
     "masks of the beamforming network can exceed one",
     [("torchiva/models/blstm.py", '''        X = (1 - self.eps) * X + self.eps
''', '''        X = X + self.eps
''')],
     '''
m = torchiva.models.MaskMVDRSupport(n_input=9, n_hidden=4, n_layers=1).eval()
with torch.no_grad():
    m.ff2.bias.fill_(40.0)
    y = m(torch.randn(9, 12, dtype=torch.complex64))
sys.exit(0 if y.max() <= 1 else 1)
''')

seed("c17-mvdr-power", "C17", "the waveform beamformer without power iterations",
     "the number of iterations is used as the number of power iterations",
     [("torchiva/nn.py", '''                mvdr_type="rtf",
                n_power_iter=n_power_iter,
''', '''                mvdr_type="rtf",
                n_power_iter=n_power_iter or n_iter,
''')],
     '''
m = torchiva.models.MaskMVDRSupport(n_input=33, n_hidden=4, n_layers=1).eval()
sep = torchiva.nn.BSSSeparator(64, n_iter=2, algo="mvdr", source_model=m)
sys.exit(0 if sep.separator.n_power_iter is None else 1)
''')

seed("c18-gauss-eps", "C18", "a Gaussian source model with its own regularisation constant on the command line",
     "the Gaussian model takes the constant of the algorithm",
     [("torchiva/separate.py", '''            source_model = torchiva.models.GaussModel(eps=args.model_eps)
''', '''            source_model = torchiva.models.GaussModel(eps=args.eps)
''')],
     '''
import torchiva.separate as s
from unittest import mock
a = s.get_parser().parse_args(["x.wav", "y.wav", "--model-type", "gauss", "--model-eps", "0.5", "--eps", "0.25", "-q"])
seen = {}
class Stop(Exception): pass
def bss(**k):
    seen.update(k); raise Stop()
with mock.patch.object(torchiva.nn, "BSSSeparator", bss):
    try: s.main(a)
    except Stop: pass
sys.exit(0 if seen["source_model"]._eps == 0.5 else 1)
''')

seed("c18-chan-src", "C18", "a recording with more channels than requested sources",
     "the algorithm only sees as many channels as sources",
     [("torchiva/separate.py", '''    if mix.shape[-2] > n_chan:
        mix = mix[..., :n_chan, :]
''', '''    if mix.shape[-2] > n_chan:
        mix = mix[..., -n_chan:, :]
''')],
     '''
import torchiva.separate as s, torchaudio
from unittest import mock
seen = []
def sep(x):
    seen.append(x); return x
x = torch.arange(4.)[:, None].expand(4, 100)
with mock.patch.object(torchaudio, "load", lambda p: (x, 8000)), mock.patch.object(torchaudio, "save", lambda *a: None):
    s.separate_one_file(sep, "a.wav", "b.wav", 2, 3, "cpu")
sys.exit(0 if torch.equal(seen[0], x[:3]) else 1)
''')

seed("c19-suffix", "C19", "an output named like the recording but without its extension",
     "the extension is added to the output name after the check against overwriting",
     [("torchiva/separate.py", '''    torchaudio.save(path_out, y, fs)
''', '''    torchaudio.save(path_out.with_suffix(".wav"), y, fs)
''')],
     '''
import torchiva.separate as s, torchaudio, tempfile, pathlib
from unittest import mock
d = pathlib.Path(tempfile.mkdtemp())
(d / "mix.wav").write_bytes(b"input")
a = s.get_parser().parse_args([str(d / "mix.wav"), str(d / "mix"), "--model-type", "laplace", "-q", "-n", "1", "--nfft", "64"])
x = torch.rand(2, 800)
saved = []
with mock.patch.object(torchaudio, "load", lambda p: (x, 8000)), mock.patch.object(torchaudio, "save", lambda p, y, f: saved.append(pathlib.Path(p))):
    s.main(a)
sys.exit(1 if (d / "mix.wav") in saved else 0)
''')

seed("c20-config-wins", "C20", "options passed to the loader that the stored configuration also sets",
     "the stored configuration overrides the parameters of the caller",
     [("torchiva/loader.py", '''    model_config.update(kwargs)
''', '''    model_config = {**kwargs, **model_config}
''')],
     '''
import tempfile, yaml, pathlib
d = pathlib.Path(tempfile.mkdtemp())
sep = torchiva.nn.BSSSeparator(64, n_iter=3)
torch.save(sep.state_dict(), d / "model_weights.ckpt")
yaml.safe_dump(dict(n_fft=64, n_iter=3), open(d / "model_config.yaml", "w"))
s = torchiva.load_separator(str(d), n_iter=7)
sys.exit(0 if s.separator.n_iter == 7 else 1)
''')

seed("c20-not-strict", "C20", "a checkpoint that lacks some of the weights of the model",
     "missing weights are silently left at their random initialisation",
     [("torchiva/loader.py", '''    separator.load_state_dict(state_dict)
''', '''    own = separator.state_dict()
    own.update(state_dict)
    separator.load_state_dict(own)
''')],
     '''
import tempfile, yaml, pathlib
d = pathlib.Path(tempfile.mkdtemp())
kw = dict(n_fft=64, n_iter=3, source_model=dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=33, n_bottleneck=8)))
sep = torchiva.nn.BSSSeparator(**kw)
sd = sep.state_dict()
sd.pop(next(k for k in sd if "bias" in k))
torch.save(sd, d / "model_weights.ckpt")
yaml.safe_dump(kw, open(d / "model_config.yaml", "w"))
try:
    torchiva.load_separator(str(d))
except RuntimeError:
    sys.exit(0)
sys.exit(1)
''')

seed("c21-inv2x2", "C21", "a square matrix larger than 2x2 given to the closed-form inverse",
     "only non-square matrices are rejected",
     [("torchiva/linalg.py", '''    if W.shape[-1] != W.shape[-2] or W.shape[-1] != 2:
''', '''    if W.shape[-1] != W.shape[-2] and W.shape[-1] != 2:
''')],
     '''
try:
    torchiva.linalg.inv_2x2(cpx(4, 3, 3))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed("c21-under", "C21", "more sources than channels asked at call time",
     "the number of sources of the call is not compared with the channels",
     [("torchiva/t_iss.py", '''        elif n_src > n_chan:
''', '''        elif (self.n_src or 0) > n_chan:
''')],
     '''
X = cpx(2, 4, 30)
try:
    torchiva.T_ISS(n_iter=0)(X, n_src=3)
except ValueError:
    sys.exit(0)
except Exception:
    sys.exit(1)
sys.exit(1)
''')

seed("c22-reseed", "C22", "a program that draws random numbers after creating a separation",
     "the initialisation of the low-rank model restarts the global random generator",
     [("torchiva/models/classic.py", '''            # initialize with uniform values between 0.1 and 0.9
''', '''            # initialize with uniform values between 0.1 and 0.9
            pt.manual_seed(pt.initial_seed())
''')],
     '''
torch.manual_seed(11)
a = torch.rand(3)
torchiva.NMFModel()(cpx(2, 5, 10))
b = torch.rand(3)
torchiva.NMFModel()(cpx(2, 5, 10))
c = torch.rand(3)
sys.exit(0 if not torch.equal(b, c) else 1)
''')

seed("c22-grad-mode", "C22", "a program that runs the separation helper and then trains",
     "gradient tracking stays disabled after a file was separated",
     [("torchiva/separate.py", '''    with torch.no_grad():
''', '''    torch.set_grad_enabled(False)
    if True:
''')],
     '''
import torchiva.separate as s, torchaudio
from unittest import mock
x = torch.rand(2, 100)
with mock.patch.object(torchaudio, "load", lambda p: (x, 8000)), mock.patch.object(torchaudio, "save", lambda *a: None):
    s.separate_one_file(lambda v: v, "a.wav", "b.wav", 2, 3, "cpu")
sys.exit(0 if torch.is_grad_enabled() else 1)
''')

seed("c23-ctor", "C23", "loading one of the shipped beamforming configurations",
     "a constructor argument used by the shipped configurations was renamed",
     [("torchiva/models/blstm.py", '''        n_input=512,
        n_hidden=600,
        dropout_p=0.5,
''', '''        n_input=512,
        n_hidden=600,
        dropout=0.5,
'''), ("torchiva/models/blstm.py", '''            num_layers=n_layers,
            dropout=dropout_p,
''', '''            num_layers=n_layers,
            dropout=dropout,
''')],
     '''
import yaml, glob, os, inspect
bad = 0
for p in glob.glob("**/*.yaml", recursive=True) + glob.glob("**/*.json", recursive=True):
    if "MaskMVDRSupport" not in open(p).read():
        continue
    def walk(o):
        global bad
        if isinstance(o, dict):
            if "MaskMVDRSupport" in str(o.get("name", "")):
                try:
                    torchiva.models.MaskMVDRSupport(**o.get("kwargs", {}))
                except TypeError:
                    bad = 1
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk(yaml.safe_load(open(p)))
sys.exit(bad)
''')

seed("c24-lpq", "C24", "the mixed-norm rescaling",
     "the mixed norm is called with an option it does not have",
     [("torchiva/scaling.py", '''            weights = lpq_norm(error, p=p, q=q, axis=-3)  # axis=-3 -> frequency
''', '''            weights = lpq_norm(error, p=p, q=q, dim=-3)  # dim=-3 -> frequency
''')],
     '''
Y = cpx(2, 5, 30)
try:
    torchiva.minimum_distortion(Y, Y[0], p=1, q=2)
except TypeError:
    sys.exit(1)
sys.exit(0)
''')

seed("c25-phase-conj", "C25", "separated signals whose phase is not that of the reference",
     "the phase-only rescaling applies the conjugate correction",
     [("torchiva/scaling.py", '''    num = pt.view_as_real(pt.mean(ref[..., None, :].conj() * Y, dim=-1))
''', '''    num = pt.view_as_real(pt.mean(ref[..., None, :] * Y.conj(), dim=-1))
''')],
     '''
from torchiva import minimum_distortion_l2_phase as f
Y = cpx(2, 5, 30)
ref = cpx(5, 30)
ph = torch.exp(1j * torch.rand(2, 5, 1, dtype=torch.float64) * 6)
sys.exit(0 if torch.allclose(f(Y, ref), f(Y * ph, ref)) else 1)
''')

seed("c26-order", "C26", "more than one selected signal",
     "the loudest signals are returned in increasing order of power",
     [("torchiva/utils.py", '''    index = torch.argsort(power.transpose(dim, -1), axis=-1, descending=True)
    index = index[..., :num]
''', '''    index = torch.argsort(power.transpose(dim, -1), axis=-1)
    index = index[..., -num:]
''')],
     '''
x = torch.tensor([1., 5., 3., 4.])[:, None].expand(4, 10).contiguous()
y = torchiva.select_most_energetic(x, 3)
sys.exit(0 if torch.equal(y[:, 0], torch.tensor([5., 4., 3.])) else 1)
''')

seed("c08-five-signal", "C08", "training through the extractor",
     "the extracted signal is computed from a detached copy of the input",
     [("torchiva/five.py", '''            Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
''', '''            Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X.detach())
''')],
     '''
X = cpx(3, 4, 30).requires_grad_()
alg = torchiva.FIVE(n_iter=1, n_power_iter=3)
D, K = cpx(3, 4, 30), torch.randn(1, 4, 30, dtype=torch.float64)
f = lambda x: (alg(x).abs() * K).sum()
g, = torch.autograd.grad(f(X), X)
h = 1e-6
num = (f(X.detach() + h * D) - f(X.detach() - h * D)) / (2 * h)
ana = (g.conj() * D).real.sum()
sys.exit(0 if abs(num - ana) < 1e-3 * abs(num) else 1)
''')

seed("c04-eye-cpu", "C04", "an input that is not on the default device, or not of default precision",
     "the identity used for projection back is created on the default device",
     [("torchiva/t_iss.py", '''    eye = torch.eye(n_src).type_as(W)

    if n_src''', '''    eye = torch.eye(n_src, dtype=W.dtype)

    if n_src''')],
     '''
X = torch.empty(2, 3, 6, 40, dtype=torch.complex64, device="meta")
try:
    Y = torchiva.T_ISS(n_iter=1, n_taps=1, n_delay=1, n_src=2, model=torchiva.LaplaceModel())(X)
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if Y.device.type == "meta" else 1)
''')

seed("c09-bg-index", "C09", "one source fewer channels than half: at least three background channels and a reference microphone that is not the first background channel",
     "projection back picks the background channel counted from the wrong end",
     [("torchiva/t_iss.py", '''            rhs = J[..., [ref_mic - n_src], :, :]
''', '''            rhs = J[..., [n_src - ref_mic], :, :]
''')],
     '''
X = cpx(5, 6, 120)
alg = torchiva.T_ISS(n_iter=3, n_src=2, proj_back_mic=3)
Y = alg(X)
ph = torch.exp(1j * torch.rand(5, 6, 1, dtype=torch.float64) * 6)
Y2 = alg(X * ph)
sys.exit(0 if (Y2 - Y * ph[[3]]).abs().max() < 1e-6 * Y.abs().max() else 1)
''')

seed("c30-iss-gain", "C30", "sources whose mean power is not one",
     "the weights of source steering are not brought to the normalised sources",
     [("torchiva/t_iss.py", '''    H = divide(H, g_sqrt[..., None], eps=eps)
    weights = weights * g
''', '''    H = divide(H, g_sqrt[..., None], eps=eps)
    weights = weights * g.mean(dim=-3, keepdim=True)
''')],
     '''
X = cpx(2, 5, 200) * torch.tensor([3.0, 0.5])[:, None, None]
Y = torchiva.T_ISS(n_iter=1, proj_back_mic=None)(X)
m = torchiva.LaplaceModel()
w = m(X) * X.abs().square().mean(dim=(-2, -1), keepdim=True)
e = (w[1] * Y[1].abs().square()).mean(-1)
sys.exit(0 if (e - 1).abs().max() < 1e-6 else 1)
''')

seed("c30-ip2-scale", "C30", "two channels with different source weights",
     "both filters of the pairwise update are scaled by the covariance of the first source",
     [("torchiva/auxiva_ip2.py", '''        torch.conj(eigvec[..., None, :, 1]) @ (V[1] @ eigvec[..., :, None, 1])
''', '''        torch.conj(eigvec[..., None, :, 1]) @ (V[0] @ eigvec[..., :, None, 1])
''')],
     '''
from torchiva.auxiva_ip2 import spatial_model_update_ip2
X = cpx(2, 5, 200)
w = torch.rand(2, 5, 200, dtype=torch.float64) + 0.1
w[1] *= 4
Y, _, _ = spatial_model_update_ip2(X, w)
e = (w * Y.abs().square()).mean(-1)
sys.exit(0 if (e - 1).abs().max() < 1e-6 else 1)
''')

seed("c30-five-eig", "C30", "single source extraction with the power method switched off",
     "the extraction filter is the eigenvector of the second smallest eigenvalue",
     [("torchiva/five.py", '''    x = r.eigenvectors[..., :, 0].to(dev)
''', '''    x = r.eigenvectors[..., :, int(V.shape[-1] > 3)].to(dev)
''')],
     '''
X = cpx(4, 6, 200)
a = torchiva.FIVE(n_iter=1, n_power_iter=None, proj_back_mic=0)(X)
b = torchiva.FIVE(n_iter=1, n_power_iter=4000, proj_back_mic=0, eps=1e-7)(X)
d = (a - b).abs().max() / a.abs().max()
print(d)
sys.exit(0 if d < 1e-2 else 1)
''')

seed("c28-third-mask", "C28", "the minimum-variance beamformer with three masks",
     "the third mask is not used for the steering vector",
     [("torchiva/beamformer.py", '''            rtf = compute_mvdr_rtf_eigh(
                R_tgt,
                R_noise_2,
''', '''            rtf = compute_mvdr_rtf_eigh(
                R_tgt,
                R_noise + 0.0 * R_noise_2,
''')],
     '''
from torchiva.beamformer import compute_mvdr_bf, compute_mvdr_rtf_eigh
X = cpx(3, 5, 100)
m = torch.rand(1, 3, 5, 100, dtype=torch.float64)
class Mod(torch.nn.Module):
    def forward(self, x):
        return m
# one source, three masks: the masks are along the third axis from the end
Y = torchiva.MVDRBeamformer(Mod(), ref_mic=1)(X)
R = [torch.einsum("fn,cfn,dfn->fcd", m[0, i], X, X.conj()) for i in range(3)]
w = compute_mvdr_bf(R[1], compute_mvdr_rtf_eigh(R[0], R[2], ref_mic=1))
Z = torch.einsum("cfn,fc->fn", X, w.conj())
sys.exit(0 if (Y[0] - Z).abs().max() < 1e-6 * Z.abs().max() else 1)
''')

seed("c29-inv2-swap", "C29", "a two by two matrix that is not symmetric",
     "the adjugate is transposed",
     [("torchiva/linalg.py", '''        (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
''', '''        (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-2
''')],
     '''
A = cpx(5, 2, 2)
r = torchiva.linalg.inv_2x2(A) @ A - torch.eye(2)
sys.exit(0 if r.abs().max() < 1e-8 else 1)
''')

seed("c31-nmf-stale", "C31", "the low-rank model, from its first call on",
     "the activation update uses the estimate from before the basis update",
     [("torchiva/models/classic.py", '''        # recompute R = dot(T, V) and its reciprocal
        self._recompute_estimate()

        # The activation matrix update
''', '''        # The activation matrix update
''')],
     '''
X = cpx(1, 6, 20)
m = torchiva.NMFModel(n_basis=2)
m(X)
T, V = m.T.clone(), m.V.clone()
P = X.abs().square()
R = T @ V.transpose(-2, -1)
m(X)
T = T * ((P / R**2) @ V / ((1 / R) @ V)).sqrt()
R = T @ V.transpose(-2, -1)
Rt, Pt = R.transpose(-2, -1), P.transpose(-2, -1)
V = V * ((Pt / Rt**2) @ T / ((1 / Rt) @ T)).sqrt()
sys.exit(0 if torch.allclose(m.V, V) and torch.allclose(m.T, T) else 1)
''')

seed("c31-laplace-one", "C31", "the Laplace model",
     "the norm over the frequencies is a root mean square",
     [("torchiva/models/classic.py", '''        denom = 2.0 * pt.sqrt(mag_sq.sum(dim=-2, keepdim=True))
''', '''        denom = 2.0 * pt.sqrt(mag_sq.mean(dim=-2, keepdim=True))
''')],
     '''
X = cpx(2, 6, 20)
r = torchiva.LaplaceModel()(X) * 2 * torch.linalg.norm(X, dim=-2, keepdim=True)
sys.exit(0 if (r - 1).abs().max() < 1e-8 else 1)
''')

seed("c25-error-y", "C25", "minimum distortion with a norm below two and at least two iterations",
     "the error is always that of the unscaled signal",
     [("torchiva/scaling.py", '''        error = ref[..., :, None, :] - c[..., :, :, None] * Y
''', '''        error = ref[..., :, None, :] - c.new_ones(c.shape)[..., :, :, None] * Y
''')],
     '''
Y, ref = cpx(2, 5, 200), cpx(5, 200)
Z = torchiva.minimum_distortion(Y, ref, p=1, rtol=0.0, max_iter=500)
c = (Z / Y).mean(-1)
E = ref - c[..., None] * Y
w = 1 / E.abs()
c2 = (w * ref * Y.conj()).sum(-1) / (w * Y.abs().square()).sum(-1)
sys.exit(0 if (c - c2).abs().max() < 1e-4 else 1)
''')

seed("c25-l2-denom", "C25", "sources of different power",
     "the least-squares factor divides by the mean power of all sources",
     [("torchiva/scaling.py", '''    denom = mag_sq(Y).mean(-1)

''', '''    denom = mag_sq(Y).mean(-1)
    denom = pt.broadcast_to(denom.mean(-2, keepdim=True), denom.shape)

''')],
     '''
Y, ref = cpx(2, 5, 200), cpx(5, 200)
Y[1] *= 3
Z = torchiva.scaling.minimum_distortion_l2(Y, ref)
r = ((ref - Z) * Y.conj()).mean(-1)
sys.exit(0 if r.abs().max() < 1e-6 else 1)
''')

seed("c28-rtf-ref0", "C28", "the minimum-variance beamformer with a reference microphone that is not the first one",
     "the steering vector is always scaled to one at the first microphone",
     [("torchiva/beamformer.py", '''    scale = steering_vector[..., [ref_mic]]
''', '''    scale = steering_vector[..., [0]]
''')],
     '''
from torchiva.beamformer import compute_mvdr_rtf_eigh
def cov():
    A = cpx(5, 3, 8)
    return A @ A.conj().transpose(-2, -1)
h = compute_mvdr_rtf_eigh(cov(), cov(), ref_mic=2)
sys.exit(0 if (h[..., 2] - 1).abs().max() < 1e-6 else 1)
''')

seed("c09-ip-bgref", "C09", "iterative projection with fewer sources than channels and a reference microphone among several background channels",
     "the background channels are counted from the last one",
     [("torchiva/auxiva_ip.py", '''            e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
''', '''            e1 = C[..., [n_src - ref_mic], :].transpose(-2, -1)
''')],
     '''
X = cpx(5, 6, 120)
alg = torchiva.AuxIVA_IP(n_iter=3, n_src=2, proj_back_mic=3)
Y = alg(X)
ph = torch.exp(1j * torch.rand(5, 6, 1, dtype=torch.float64) * 6)
Y2 = alg(X * ph)
sys.exit(0 if (Y2 - Y * ph[[3]]).abs().max() < 1e-5 * Y.abs().max() else 1)
''')

seed("c30-ip-stale-bg", "C30", "iterative projection with two sources or more and fewer sources than channels",
     "the background is brought up to date once per iteration instead of once per source",
     [("torchiva/auxiva_ip.py", '''                # apply the orthogonal constraint
                J = orthogonal_constraint(W, Cx, load=eps)
''', '''                # apply the orthogonal constraint
                J = orthogonal_constraint(W, Cx, load=eps) if k == 0 else J
''')],
     '''
X = cpx(3, 4, 400)
X = X + torch.einsum("cd,dfn->cfn", cpx(3, 3) * 0.7, X)
m = torchiva.LaplaceModel()
alg = torchiva.AuxIVA_IP(n_iter=1, n_src=2, proj_back_mic=None, eps=1e-9, model=m)
Y = alg(X)
w = m(X[:2]) * X[:2].abs().square().mean(dim=(-2, -1), keepdim=True)
worst = 0
# filters of the two sources, and the background orthogonal to the sources before the last update
for f in range(4):
    W = Y[:, f] @ torch.linalg.pinv(X[:, f])
    x = X[:, f]
    Cx = x @ x.conj().T / 400
    V = (x * w[1, f]) @ x.conj().T / 400
    W0 = torch.stack((W[0], torch.tensor([0, 1, 0], dtype=W.dtype)))
    A = W0 @ Cx
    J = torch.linalg.solve(A[:, :2], A[:, 2:]).conj().T
    b = torch.cat((J, -torch.ones(1, 1, dtype=W.dtype)), dim=-1)
    r = (b @ V @ W[1].conj()) / (b.norm() * (V @ W[1].conj()).norm())
    worst = max(worst, r.abs().max().item())
print(worst)
sys.exit(0 if worst < 1e-5 else 1)
''')

seed("c29-hermite-dims", "C29", "the conjugate transpose of a complex tensor over other axes than the last two",
     "the axes asked for are used for real tensors only",
     [("torchiva/linalg.py", '''        return pt.conj(A.transpose(dim1, dim2))
''', '''        return pt.conj(A.transpose(-2, -1))
''')],
     '''
A = cpx(3, 3, 3)
r = torchiva.linalg.hermite(A, 0, 1) - A.conj().transpose(0, 1)
sys.exit(0 if r.abs().max() == 0 else 1)
''')

seed("c31-gauss-real", "C31", "a real-valued signal",
     "the Gauss model uses the magnitude instead of the power of real signals",
     [("torchiva/models/classic.py", '''            mag_sq = X.square()
        denom = mag_sq.mean(dim=-2)
''', '''            mag_sq = X.abs()
        denom = mag_sq.mean(dim=-2)
''')],
     '''
X = torch.randn(2, 6, 20, dtype=torch.float64)
r = torchiva.GaussModel()(X) * X.square().mean(dim=-2, keepdim=True)
sys.exit(0 if (r - 1).abs().max() < 1e-8 else 1)
''')
