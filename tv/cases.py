"""The public algorithms and the option combinations under which they are analysed."""
import itertools
from .poly import P, Poly, lower
from .vals import *
from .interp import explore
from . import scen
from .scen import S, pub, stft_input, model_obj, source_hook, mask_hook

BLIND = ("T_ISS", "AuxIVA_IP", "AuxIVA_IP2", "FIVE", "WPE")
BEAM = ("MVDRBeamformer", "MWFBeamformer", "GEVBeamformer")


class Case:
    """one call of one algorithm

    opts : option values; "sym" stands for an arbitrary admissible value
    """

    def __init__(self, alg, nb=0, C=None, opts=None, model="laplace", masks=None, ones=()):
        self.alg, self.nb, self.C, self.opts, self.model, self.masks, self.ones = alg, nb, C, dict(opts or {}), model, masks, ones

    def __repr__(self):
        o = ",".join("%s=%s" % kv for kv in sorted(self.opts.items(), key=str))
        s = "%s(%s) batch-rank=%d channels=%s model=%s" % (self.alg, o, self.nb, self.C or ">=3", self.model)
        if self.masks:
            s += " masks=%d" % self.masks
        if self.ones:
            s += " singleton-batch=%s" % (self.ones,)
        return s

    def rep(self, **kw):
        c = Case(self.alg, self.nb, self.C, self.opts, self.model, self.masks, self.ones)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    # ------------------------------------------------------------------
    def resolve(self, I, s, k, v):
        C = s.v["C"]
        if v != "sym" and v not in ("C", "<C", "C-1"):
            return v
        if k in ("proj_back_mic", "ref_mic"):
            if v == "C-1":
                return lower(C - 1)
            r = I.facts.new_sym("ref", 0)
            I.facts.add(C - 1 - r)
            return r
        if k == "n_src":
            if v == "C":
                return lower(C)
            r = s.size("Ns", 1, role="src")
            I.facts.add(C - 1 - r)
            return r
        if k == "n_taps":
            return s.size("taps", 1, role="tap")
        if k == "n_delay":
            return s.size("delay", 0)
        if k == "n_iter":
            return s.size("iters", 1)
        if k == "n_power_iter":
            return s.size("piter", 1)
        if k == "eps":
            f = Flt(("opt", "eps"), "gtc", True, name="eps")
            return f
        return v

    def prepare(self, I, dtype=C64, device="cpu", phase=False, lag=False, zero=False, grad=True, n_mask_src=2):
        s = S(I)
        self.s = s
        if self.masks:
            I.flags["model_hook"] = mask_hook(None, n_mask_src, self.masks)
        else:
            I.flags["model_hook"] = source_hook()
        X = stft_input(I, s, self.nb, self.C, dtype, device, phase=phase, lag=lag, zero=zero, chan_lo=3, ones=self.ones)
        return s, X

    def kwargs(self, I, s):
        return {k: self.resolve(I, s, k, v) for k, v in self.opts.items()}

    def make_model(self, I, device="cpu"):
        return None if self.model is None else model_obj(I, self.model)

    def construct(self, I, kw, model, device="cpu"):
        kw = dict(kw)
        if model is not None:
            kw["mask_model" if self.alg in BEAM else "model"] = model
        o = I.call(pub(I, self.alg), [], kw)
        if device != "cpu":
            I.call(I.getattr(o, "to"), [Dev(device)], {})
        return o

    def expected_src(self, I, s, kw, n_mask_src=2):
        if self.alg in BEAM:
            return P(n_mask_src)
        if self.alg == "FIVE":
            return P(1)
        n = kw.get("n_src")
        if self.alg in ("T_ISS", "AuxIVA_IP") and n is not None:
            return P(n)
        return s.v["C"]

    def run(self, I, **kw):
        """-> (output, input, sizes, options)"""
        s, X = self.prepare(I, **kw)
        ok = self.kwargs(I, s)
        o = self.construct(I, ok, self.make_model(I), kw.get("device", "cpu"))
        Y = I.call(o, [X], {})
        return Y, X, s, ok


def Dev(name):
    return name


def algo_cases(tier, literal_c=True, masks=True, wpe=True, blind=True, models=False, one_src=True):
    """the option lattice; every entry is a valid request"""
    out = []
    deep = tier == "thorough"
    ranks = (0, 1, 2, 3) if deep else (0, 1, 2)
    if blind:
        for nb in ranks:
            for C in (None, 2, 3) if deep else (None, 2):
                refs = ("sym", None, 0, "C-1") if C is None else (0, 1, None)
                srcs = (None, "C", "<C") if C is None else (None, C, 1)
                if not one_src:
                    srcs = tuple(x for x in srcs if x != 1)
                for r in refs:
                    for n in srcs:
                        for taps, delay in ((0, 0), ("sym", "sym"), (2, 1)):
                            if not deep and taps == 2 and (r not in (0,) or nb == 2):
                                continue
                            out.append(Case("T_ISS", nb, C, dict(n_iter=2 if deep else 1, n_src=n, proj_back_mic=r, n_taps=taps, n_delay=delay)))
                        out.append(Case("AuxIVA_IP", nb, C, dict(n_iter=2, n_src=n, proj_back_mic=r)))
                    out.append(Case("FIVE", nb, C, dict(n_iter=2, proj_back_mic=r)))
                    out.append(Case("FIVE", nb, C, dict(n_iter=2, proj_back_mic=r, n_power_iter=2)))
                for n in srcs:
                    out.append(Case("T_ISS", nb, C, dict(n_iter=2, n_src=n, use_dmc=True, n_taps=1, n_delay=1)))
                out.append(Case("FIVE", nb, C, dict(n_iter=1, n_power_iter=1)))
            for r in (0, 1, None):
                out.append(Case("AuxIVA_IP2", nb, 2, dict(n_iter=2, proj_back_mic=r)))
            if models:
                for m in ("gauss", "nmf", "opaque"):
                    out.append(Case("T_ISS", nb, None, dict(n_iter=2, n_src="<C", n_taps=1, n_delay=1), model=m))
                    out.append(Case("AuxIVA_IP2", nb, 2, dict(n_iter=2), model=m))
                    out.append(Case("AuxIVA_IP", nb, None, dict(n_iter=2, n_src="C"), model=m))
                    out.append(Case("FIVE", nb, None, dict(n_iter=2), model=m))
            for ni in ("sym", 3):
                out.append(Case("T_ISS", nb, None, dict(n_iter=ni, n_src="<C", n_taps=1)))
                out.append(Case("T_ISS", nb, None, dict(n_iter=ni)))
                out.append(Case("AuxIVA_IP", nb, None, dict(n_iter=ni, n_src="C")))
                out.append(Case("AuxIVA_IP2", nb, 2, dict(n_iter=ni)))
                out.append(Case("FIVE", nb, None, dict(n_iter=ni)))
    if wpe:
        for nb in ranks:
            for C in (None, 2):
                for t, d in (("sym", "sym"), (3, 2), (1, 0)):
                    out.append(Case("WPE", nb, C, dict(n_iter=2, n_taps=t, n_delay=d), model=None))
                out.append(Case("WPE", nb, C, dict(n_iter="sym", n_taps=2, n_delay=1), model=None))
    if masks:
        for nb in ranks:
            for C in (None, 2, 3) if deep else (None, 2):
                for r in (("sym", 0, "C-1") if C is None else (0, 1)):
                    for t in ("rtf", "scm"):
                        out.append(Case("MVDRBeamformer", nb, C, dict(ref_mic=r, mvdr_type=t), "opaque", 2))
                    out.append(Case("MVDRBeamformer", nb, C, dict(ref_mic=r, n_power_iter=3), "opaque", 2))
                    out.append(Case("MVDRBeamformer", nb, C, dict(ref_mic=r, n_power_iter="sym"), "opaque", 2))
                    out.append(Case("MVDRBeamformer", nb, C, dict(ref_mic=r), "opaque", 3))
                    out.append(Case("GEVBeamformer", nb, C, dict(ref_mic=r), "opaque", 2))
                    out.append(Case("MWFBeamformer", nb, C, dict(ref_mic=r), "opaque", 2))
                    out.append(Case("MWFBeamformer", nb, C, dict(ref_mic=r, time_invariant=True), "opaque", 4))
                    out.append(Case("MWFBeamformer", nb, C, dict(ref_mic=r, time_invariant=False), "opaque", 4))
    # a batch dimension of size one
    for alg, C, o, m, k in (("T_ISS", None, dict(n_iter=1, n_src="<C", n_taps=1), "laplace", None),
                            ("AuxIVA_IP", None, dict(n_iter=1, n_src="C"), "laplace", None),
                            ("AuxIVA_IP2", 2, dict(n_iter=1), "laplace", None), ("FIVE", None, dict(n_iter=1), "laplace", None),
                            ("WPE", None, dict(n_iter=1, n_taps=1, n_delay=1), None, None),
                            ("MVDRBeamformer", None, dict(ref_mic=1), "opaque", 2), ("GEVBeamformer", None, dict(ref_mic=1), "opaque", 2),
                            ("MWFBeamformer", None, dict(ref_mic=1), "opaque", 2)):
        if (alg in BEAM and not masks) or (alg == "WPE" and not wpe) or (alg in BLIND and alg != "WPE" and not blind):
            continue
        out.append(Case(alg, 1, C, o, m, k, ones=(0,)))
        out.append(Case(alg, 2, C, o, m, k, ones=(0,)))
        out.append(Case(alg, 2, C, o, m, k, ones=(1,)))
    return out
