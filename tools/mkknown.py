#!/usr/bin/env python3
"""Regenerate known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C02", "no-cross-item-control|minimum_distortion:norm",
  "minimum_distortion with p<2 stops all batch items together: its convergence test is a norm over the whole batch (torchiva/scaling.py, minimum_distortion, relative step length), so the number of iterations for one item depends on the others"),
 ("C06", "influences|GEVBeamformer:eps",
  "GEVBeamformer: eps given at call time or at construction has no effect on the result (torchiva/beamformer.py, GEVBeamformer.forward: the eigenproblem is not regularised with it)"),
 ("C06", "influences|MVDRBeamformer+scm:eps",
  "MVDRBeamformer with mvdr_type='scm': eps has no effect on the result (torchiva/beamformer.py, compute_mvdr_bf2 is called without it)"),
 ("C29", "eigenvectors|single complex, of the conjugate",
  "eigh_2x2(A) with one complex hermitian matrix returns the eigenvectors of the conjugate of A: A v = l v fails, conj(A) v = l v holds (torchiva/linalg.py, eigh_2x2, branch without B); tests/test_linalg.py::test_eigh_2x2 compares without a conjugate and fails when it is corrected, and nothing in the package calls this branch"),
 ("C23", "exported-algorithm|examples/configs/gev.json",
  "a model trained with examples/configs/gev.json and exported with examples/export_model.py is read back by load_separator as a T-ISS separator: the exporter writes the `model` part of the configuration, without `algorithm`"),
 ("C23", "exported-algorithm|examples/configs/mvdr.json",
  "a model trained with examples/configs/mvdr.json and exported with examples/export_model.py is read back by load_separator as a T-ISS separator, which then fails on the first signal: the exporter does not write `algorithm`"),
 ("C23", "exported-algorithm|examples/configs/mwf.json",
  "a model trained with examples/configs/mwf.json and exported with examples/export_model.py is read back by load_separator as a T-ISS separator, which then fails on the first signal: the exporter does not write `algorithm`"),
]
X = [
 ("C01", "5dd0871", "AuxIVA_IP without n_src fails (None compared with the number of channels)"),
 ("C01", "aa54aa5", "AuxIVA_IP with n_src < n_chan and a reference microphone at or above n_src returns a wrong shape"),
 ("C01", "49ba8d9", "T_ISS overdetermined with batch and a reference among the background channels fails"),
 ("C01", "276bbb7", "FIVE with proj_back_mic=None returns an extra dimension"),
 ("C24", "1c15c0d", "FIVE with n_power_iter=1 uses an unbound name"),
 ("C03", "f0d4de3", "eigh_2x2 with two matrices works in single precision for double precision input"),
 ("C10", "f1ec886", "FIVE with two channels uses conjugated eigenvectors, so the output loses the reference phase"),
 ("C13", "a962542", "STFT with a custom window fails or analyses and synthesises with different windows"),
 ("C18", "73bd62b", "the separate command feeds only n_src channels of the recording to the algorithm"),
 ("C24", "ec8f698", "the separate command uses an undefined name `ref`"),
 ("C18", "70b64a8", "the separate command ignores --n_iter"),
 ("C19", "3d78ccf", "the separate command with output folder = input folder overwrites the recordings"),
 ("C19", "b12db5c", "the separate command on nested folders writes files of the same name over each other"),
 ("C20", "2bb8591", "an interrupted download leaves a partial model which the next call loads"),
 ("C20", "925aedd", "two different model URLs of the same file name share one cache entry"),
 ("C24", "6cdfabf", "diagonal_loading uses an undefined name"),
 ("C07", "cf7c43d", "WPE never resets a stateful source model"),
 ("C24", "751c472", "the T_ISS cost is computed with names and dimensions that do not exist on the overdetermined path"),
 ("C06", "653da97", "MWFBeamformer ignores eps"),
 ("C21", "eb742a8", "MVDRBeamformer with an unknown type or number of masks fails with an unbound variable instead of a clear error"),
 ("C16", "b8349e0", "SimpleModel applies its floor inside the sigmoid, so masks can reach zero"),
 ("C06", "9a623d7", "FIVE ignores eps"),
 ("C19", "77e6113", "results of the separate command replace each other through links in the output folder"),
 ("C25", "575dd9d", "minimum_distortion with a weight model fails without batch and mixes batch items"),
 ("C19", "25e1c37", "a folder named like a wav file stops the separate command"),
 ("C30", "f87477c", "overdetermined T_ISS with n_taps > 0: the background is not orthogonal to the sources (wrong sign of the dereverberation term)"),
]
json.dump({"findings": [{"property": p, "key": k, "what": w} for p, k, w in F],
           "fixed": ["fixed: property=%s %s %s" % x for x in X]}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
