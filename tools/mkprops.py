"""Authoring helper: writes ../properties.jsonl (one line per property)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


SEP = ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/beamformer.py", "torchiva/linalg.py"]

p("C01", "Separators return the documented shape for every batch and size",
  "Every separation, extraction, dereverberation and beamforming algorithm applied to a valid STFT tensor (..., n_chan, n_freq, n_frames) completes and returns (..., n_src, n_freq, n_frames): same leading batch dimensions (none, one or several), n_src the requested number of sources (all channels when it is not given, one for single-source extraction), same frequencies and frames. This holds for every combination of valid options: number of sources equal to or below the channels, any reference microphone index below n_chan or none, any number of taps and delay, direct or memory-efficient mode, two or more channels, every mask and beamformer variant.",
  ["inputs", "configurations"], "all batch ranks and sizes, channel/source/frequency/frame/tap/delay counts, reference microphones and option combinations",
  "The tests run one 2- or 3-channel recording with one batch layout and reference 0 or 1; reference microphones at or above the number of sources, several batch dimensions, defaults such as an unset source count, and most beamformer classes are never run.",
  SEP + ["torchiva/base.py"],
  [("forward methods", "T_ISS/AuxIVA_IP/AuxIVA_IP2/FIVE/WPE/MVDR/MWF/GEV.forward"), ("projection back", "torchiva/t_iss.py:projection_back_weights, torchiva/auxiva_ip.py:projection_back_from_demixing_matrix")],
  observe=["shape of the returned tensor"])

p("C02", "Batch items are processed independently",
  "For every algorithm, source model (in evaluation mode), transform and rescaling helper, the result for one batch item is a function of that item alone: no statistic, normalisation, solve, index selection or stopping test combines data from different batch items, and batch items are never reordered.",
  ["inputs"], "all batch shapes and contents",
  "The tests only ever pass a single batch item, so coupling through a reduction over the wrong axis is invisible.",
  SEP + ["torchiva/models/classic.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py", "torchiva/stft.py", "torchiva/scaling.py", "torchiva/utils.py"],
  [("trailing-axis indexing", "all reductions and einsums use negative axes / an ellipsis"), ("batch flattening", "models/*.py and stft.py reshape (-1, n_freq, n_frames) and back")],
  observe=["dependence of output item i on input item j"])

p("C03", "Working precision follows the input",
  "Double-precision input yields double-precision output, and single-precision input yields single-precision output, for every algorithm, source model without learned parameters, linear-algebra and rescaling helper; no data-dependent intermediate is ever stored in a lower precision than the input. Complex data never silently loses its imaginary part.",
  ["inputs", "configurations"], "all inputs in single or double precision, real or complex where accepted, and all options",
  "The tests run single precision almost everywhere; the four dtype-parametrised linear-algebra tests use a 1e-5 tolerance that hides single-precision rounding of double data.",
  SEP + ["torchiva/dtypes.py", "torchiva/models/classic.py", "torchiva/scaling.py", "torchiva/fftconvolve.py"],
  [("allocation from an existing tensor", "new_zeros/new_ones/type_as throughout"), ("eigenvalue buffers", "torchiva/linalg.py:eigh_2x2")],
  observe=["dtype of results and of every intermediate"])

p("C04", "Computation stays on the input's device",
  "When input and modules live on an accelerator, every algorithm, source model, transform and helper completes and returns its result on that same device: no freshly created tensor on another device is ever combined with the data.",
  ["configurations"], "all devices, algorithms and options",
  "The test machine has no accelerator, so a tensor created on the default device is never noticed.",
  SEP + ["torchiva/models/classic.py", "torchiva/scaling.py", "torchiva/stft.py", "torchiva/nn.py"],
  [("type_as / device= / new_*", "all identity, zero and index tensors"), ("CPU eigen-decomposition round trip", "torchiva/linalg.py:eigh_wrapper, torchiva/five.py:smallest_eigenvector_eigh_cpu")],
  observe=["device of each operand"])

p("C05", "Caller's tensors are never modified",
  "No algorithm, source model, transform, rescaling or linear-algebra helper writes into a tensor supplied by the caller, directly or through a view of it (including the overlapping delayed-frame view); after any call all argument tensors hold their original values.",
  ["inputs", "configurations"], "all inputs (contiguous or not) and all options",
  "The tests build a fresh tensor for every call and never look at it again.",
  SEP + ["torchiva/models/classic.py", "torchiva/scaling.py", "torchiva/stft.py", "torchiva/utils.py", "torchiva/nn.py"],
  [("copies before in-place updates", "torchiva/t_iss.py:iss_updates_with_H clones, torchiva/auxiva_ip.py and wpe.py clone"), ("fresh buffers", "torchiva/linalg.py:eigh_2x2, inv_2x2")],
  observe=["contents of argument tensors after the call"])

p("C06", "Call-time options override for one call only and are all honoured",
  "An option given at call time (including 0 or False) replaces the configured value in that call, an option left out takes the configured value, and each value reaches the option of the same meaning and influences the result. A call never changes any configured option of the object, so the next call sees the original configuration.",
  ["inputs", "histories", "configurations"], "all subsets of overridden options, all values, all sequences of calls",
  "Tests override at most the iteration count, never with a falsy value, and never call twice with different overrides.",
  ["torchiva/base.py"] + SEP,
  [("parameter resolution", "torchiva/base.py:DRBSSBase._set_params, BFBase._set_params"), ("read-only configuration properties", "torchiva/base.py")],
  observe=["result of a call with overrides", "configured properties after the call"])

p("C07", "A separator's result does not depend on earlier calls",
  "Calling a separator, extractor, dereverberator or waveform separator on a signal gives the same result whatever signals (of whatever shape) were processed before with the same object or the same source model object: internal state of stateful source models is discarded at the start of every separation and nothing stored on the objects by one call is read by the next. Objects built without an explicit source model do not share one.",
  ["histories"], "all sequences of calls and signals",
  "Each test builds new objects and calls them once.",
  ["torchiva/base.py", "torchiva/models/classic.py", "torchiva/nn.py"] + SEP,
  [("model reset", "torchiva/base.py:DRBSSBase._reset, models/classic.py:NMFModel.reset"), ("reset in the waveform separator", "torchiva/nn.py:BSSSeparator.forward")],
  observe=["result of the n-th call"])

p("C08", "Gradients reach the input and the source model unbroken",
  "For every algorithm the result is differentiable with respect to the input and to everything the source model (or mask model) outputs, in every iteration and in memory-efficient mode: no part of the data path is detached, evaluated without gradient tracking or rounded through Python numbers, the only exception being the row-norm preconditioner of a regularised solve, which cancels in the solution.",
  ["inputs", "configurations"], "all inputs, iteration counts and options",
  "The training tests only check that a loss improves by 0.5 dB for T-ISS; a partially cut gradient still passes and the other algorithms are never differentiated.",
  SEP + ["torchiva/models/classic.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py", "torchiva/nn.py"],
  [("no_grad only around preconditioner norms", "torchiva/linalg.py:solve_loaded_general, torchiva/t_iss.py:background_update"), ("checkpointing passes model parameters", "torchiva/t_iss.py:T_ISS.forward")],
  observe=["gradient paths from output to input and model output"])

p("C09", "Separated signal always equals the demixing filters applied to the input",
  "In iterative source steering the signal estimate is what the demixing filters give on the input minus what the dereverberation filters give on the delayed input, after every update of every iteration, determined or overdetermined. Observable consequences, in exact arithmetic: memory-efficient mode, which stores only the filters and recomputes the signal, returns the same signal as direct mode; every returned signal of every separator is a linear combination, with coefficients that are the same in all frames, of the input channels and (with taps) their configured delayed versions; and projection back scales every source by the response of the inverse of the very filters that produced it at the reference microphone, so that the scaled sources (with the background, when there is one) add up to the reference channel.",
  ["inputs", "configurations", "histories"], "all inputs, iteration counts, tap counts and source counts, in direct and memory-efficient mode",
  "The only comparison of the two modes is one determined 3-channel signal with an SDR tolerance; the overdetermined case is never compared.",
  ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py"],
  [("mirrored updates of signal and filters", "torchiva/t_iss.py:iss_updates_with_H, over_iss_t_one_iter"), ("recomputation", "torchiva/t_iss.py:over_iss_t_one_iter_dmc, demix_derev"), ("projection back", "torchiva/t_iss.py:projection_back_weights, torchiva/auxiva_ip.py:projection_back_from_demixing_matrix")],
  observe=["returned signal in both modes"])

p("C10", "Output is phase-aligned to the reference microphone",
  "Rotating the phase of any input channel by a unit complex factor (per channel and frequency, constant in time) leaves the outputs of every separation, extraction and beamforming algorithm unchanged except that every output at a frequency is multiplied by the factor of the reference microphone at that frequency. In particular outputs do not depend on the arbitrary phase of eigenvectors, on conjugation conventions, or on which microphones other than the reference were rotated.",
  ["inputs", "configurations"], "all inputs, all phase rotations, all reference microphones and options, source models that depend on magnitudes only",
  "SDR thresholds on two recordings tolerate wrong conjugations that only degrade quality, and the reference microphone is 0 or 1 only.",
  SEP,
  [("projection back / steering normalisation", "torchiva/t_iss.py:projection_back_weights, torchiva/auxiva_ip.py:projection_back_from_demixing_matrix, torchiva/auxiva_ip2.py, torchiva/five.py, torchiva/beamformer.py"), ("hermitian linear algebra", "torchiva/linalg.py")],
  observe=["output under a phase rotation of the input channels"])

p("C11", "Silent or degenerate input gives finite output",
  "For digital silence, silent channels or frequencies, duplicate channels and single-frame statistics, the blind separation, extraction and dereverberation algorithms and the built-in source models return finite numbers: every division, reciprocal, logarithm, square root and linear solve on data is protected by a positive floor or diagonal loading.",
  ["inputs"], "all finite inputs including exact zeros, all options with positive regularisation constants",
  "All tests use non-silent recordings.",
  ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py", "torchiva/linalg.py", "torchiva/models/classic.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py"],
  [("clamped denominators", "torchiva/linalg.py:divide, models/classic.py, t_iss.py, auxiva_ip.py"), ("diagonal loading", "torchiva/linalg.py:solve_loaded, solve_loaded_general, inv_loaded")],
  observe=["finiteness of the result"])

p("C12", "Waveform separator preserves batch shape and duration",
  "The waveform separator maps (..., n_chan, n_samples) to (..., n_src, n_samples) with exactly the input number of samples, for every signal length, FFT size, hop, batch shape and algorithm.",
  ["inputs", "configurations"], "all lengths, STFT parameters, batch shapes and algorithms",
  "The tests run one file whose length and STFT size are fixed and do not look at the output length.",
  ["torchiva/nn.py", "torchiva/stft.py"],
  [("zero-padding / trimming", "torchiva/nn.py:BSSSeparator.forward"), ("batch flattening", "torchiva/stft.py")],
  observe=["shape of the separated waveform"])

p("C13", "STFT analysis and synthesis are matched",
  "For every FFT size, hop and window (named, array or tensor) the STFT object can be built, its forward and inverse transforms use the same FFT size, hop, window and framing conventions, arbitrary leading dimensions are preserved and never interleaved, and the window moves with the module.",
  ["inputs", "configurations"], "all FFT sizes, hops, window specifications and batch shapes",
  "Tests use named windows with default or quarter hop only and compare separated signals, not the transform pair.",
  ["torchiva/stft.py"],
  [("shared parameters", "torchiva/stft.py:STFT.forward, STFT.inv"), ("window buffer", "torchiva/stft.py:STFT.__init__")],
  observe=["arguments of the analysis and synthesis transforms", "shape of their results"])

p("C14", "Dereverberation predicts only from the configured past frames",
  "Dereverberation of frame n (weighted prediction error and the dereverberating separator) subtracts a linear combination of exactly n_taps past frames, n-n_delay-1 down to n-n_delay-n_taps, treating frames before the start as silence; the current frame, the n_delay frames before it and future frames never enter the prediction.",
  ["inputs", "configurations"], "all taps, delays, numbers of frames and channels",
  "Two tap/delay combinations are run and judged by an SDR threshold that an off-by-one delay still passes.",
  ["torchiva/wpe.py", "torchiva/t_iss.py", "torchiva/linalg.py"],
  [("left zero-padding and delayed view", "torchiva/wpe.py:WPE.forward, torchiva/t_iss.py:T_ISS.forward, torchiva/linalg.py:hankel_view")],
  observe=["which input frames an output frame depends on"])

p("C15", "FFT convolution is a full linear convolution on any axis",
  "For all signal lengths and any axis, FFT convolution transforms both operands with a common size large enough that nothing wraps around, and returns n1+n2-1 samples in full mode, n1 centred samples in same mode and max-min+1 centred samples in valid mode, with the other axes and batch dimensions untouched; any other mode is rejected.",
  ["inputs", "configurations"], "all lengths, axes, batch shapes and modes",
  "The tests cover 1-D signals on the last axis with four length pairs.",
  ["torchiva/fftconvolve.py"],
  [("common FFT size and centred slice", "torchiva/fftconvolve.py:fftconvolve")],
  observe=["length and position of the returned samples"])

p("C16", "Source models return positive bounded real weights of the input's shape",
  "For every input (any leading batch dimensions, including silence) each built-in source model returns real weights with the documented shape, strictly positive and bounded by a constant that depends only on its regularisation constant; mask networks stay within (0, 1].",
  ["inputs", "configurations"], "all inputs, batch shapes, model options",
  "Models are only exercised inside separators on one recording; shapes with several batch dimensions, silence and the positivity of weights are never looked at.",
  ["torchiva/models/classic.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "torchiva/models/simple.py"],
  [("clamp before reciprocal", "torchiva/models/classic.py"), ("offset sigmoid", "torchiva/models/glu.py, blstm.py, simple.py")],
  observe=["weights returned by the models"])

p("C17", "Each algorithm name runs its own algorithm with every option forwarded",
  "The waveform separator accepts exactly the advertised algorithm names (or the corresponding enum members) and rejects others; each name runs the algorithm of that name on the given source model, and every option that algorithm has (iterations, taps, delay, sources, reference microphone, memory-efficient mode, power iterations, regularisation) takes the value given to the waveform separator.",
  ["configurations"], "all algorithm names and option values",
  "The tests run three of the six names with default options; the option values are not observable in what they assert.",
  ["torchiva/nn.py"],
  [("dispatch", "torchiva/nn.py:BSSSeparator.__init__"), ("enum", "torchiva/nn.py:SepAlgo")],
  observe=["separator built for a name and its configuration"])

p("C18", "Every command-line option takes effect",
  "In the separation command each option that applies to the chosen source model and algorithm determines the result written to disk: number of iterations, channels and sources, reference channel, and for classic models also STFT size, hop and window, taps, delay, regularisation constants and basis count; the algorithm sees the first channels up to the given maximum and the file holds at most the requested number of sources.",
  ["configurations"], "all option values for every algorithm and source model",
  "The command is run with default iteration, STFT, tap and reference options and only required not to crash.",
  ["torchiva/separate.py", "torchiva/nn.py", "torchiva/loader.py"],
  [("argument forwarding", "torchiva/separate.py:main, separate_one_file")],
  observe=["audio written by the command"])

p("C19", "The separation command never overwrites its input or loses a result",
  "The separation command never writes to the file it reads from, whether the output is named as a file or as a folder; when a folder is processed every wav file found in it (recursively) produces its own output file, so no result silently replaces another.",
  ["inputs", "configurations"], "all input/output paths and folder layouts",
  "The tests use one flat folder with a single file and a distinct output folder.",
  ["torchiva/separate.py"],
  [("output path construction and guards", "torchiva/separate.py:main")],
  observe=["paths written by the command"])

p("C20", "Model loading uses the requested model, completely or not at all",
  "Loading a separator from a folder or URL uses the weights and configuration of that location, lets caller-supplied parameters override the stored configuration, loads all weights strictly, and fails with an error when a file is missing; a download that is interrupted at any point never leaves a file that later calls accept as the model.",
  ["crash_points", "configurations", "histories"], "all crash points of a download, all override sets and locations",
  "The success path of the loader is not covered by any passing test here, and no test interrupts a download.",
  ["torchiva/loader.py"],
  [("download cache", "torchiva/loader.py:get_model_from_url"), ("config and weights", "torchiva/loader.py:load_separator_model, load_separator")],
  observe=["files in the model cache", "parameters of the loaded separator"])

p("C21", "Invalid requests are rejected with an error",
  "More sources than channels, a channel count the two-channel algorithm cannot handle, an unknown algorithm name, convolution mode or model type, matrices of the wrong size for the 2x2 routines, a reference microphone the two-channel algorithm does not have, a number of masks the minimum-variance or time-variant Wiener beamformer cannot use, a window that does not fit the transform, norm exponents out of range, a non-wav input, identical input and output, a beamformer without a trained model, or a model path that does not exist always raises an error before any result is produced or file written.",
  ["inputs", "configurations"], "all invalid requests of these kinds",
  "No test passes an invalid argument.",
  ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/nn.py", "torchiva/fftconvolve.py", "torchiva/linalg.py", "torchiva/separate.py", "torchiva/loader.py"],
  [("guards", "raise/assert statements at the entry points")],
  observe=["exception raised"])

p("C22", "The library has no hidden global side effects",
  "Importing the package and calling any of its algorithms, models and helpers never seeds or resets random generators, changes default dtype, gradient mode, thread or backend settings, environment, warning filters or working directory, and writes no files; the only randomness drawn is the initialisation of the low-rank source model and network layers. The separation command writes only its output files.",
  ["histories", "configurations"], "all call sequences",
  "Tests set the seed themselves and never compare global state before and after.",
  ["torchiva/"],
  [("effect discipline", "all modules of the package; seeding only under the command-line guard in torchiva/separate.py")],
  observe=["global interpreter and torch state"])

p("C23", "Shipped configurations and the exporter match what the loader accepts",
  "Every shipped model configuration names importable source models with arguments their constructors accept and separator options that exist, dimensionally consistent with the STFT size, and the files and keys written by the exporter are the ones the loader reads.",
  ["configurations"], "all shipped configuration files",
  "The only test that would load a shipped configuration needs weights that are not available.",
  ["torchiva/nn.py", "torchiva/loader.py", "torchiva/utils.py", "torchiva/models/__init__.py", "torchiva/models/glu.py", "torchiva/models/blstm.py", "trained_models/tiss/model_config.yaml", "examples/configs/tiss.json", "examples/export_model.py"],
  [("constructor signatures", "torchiva/nn.py:BSSSeparator.__init__, torchiva/models/*"), ("dynamic import", "torchiva/utils.py:instantiate")],
  observe=["constructor accepts the configuration"])

p("C24", "Every name and attribute used on any path exists",
  "No reachable path of the package refers to a variable that is never assigned on that path, an undefined global, a missing module member or an option the called function does not have; hence no input or option can trigger a name, attribute or signature error inside the library.",
  ["inputs", "configurations"], "all paths of all functions of the package",
  "Tests execute a fraction of the branches; a wrong name in an untested branch stays hidden.",
  ["torchiva/"],
  [("name binding", "all modules of the package")],
  observe=["NameError/UnboundLocalError/TypeError at run time"])

p("C25", "Rescaling helpers fit the reference, restore its phase and keep shapes",
  "The rescaling helpers (projection back, minimum distortion in all its norms, phase-only) return a tensor of the shape of the separated signal, scale every signal by one factor per source, frequency and batch item, and give each output the phase convention of the reference: the result does not depend on the arbitrary per-source, per-frequency phase of the separated signal (for the iterative norms: at the fixed point of the iteration; for projection back: up to its diagonal loading). Away from the floors, in exact arithmetic, minimum distortion returns the factor that minimises the squared distance to the reference over the frames; with a norm p < 2 or a weight model every iteration minimises the squared error weighted by |error|^(p-2), or by the model's answer, for the error of the previous iterate, starting from factor one; the phase-only helper returns the factor of modulus one that brings the signal in phase with the reference.",
  ["inputs"], "all inputs, phases, norms and batch shapes",
  "No test calls the rescaling helpers.",
  ["torchiva/scaling.py"],
  [("complex least-squares scale", "torchiva/scaling.py")],
  observe=["returned tensor under phase rotations of the arguments", "correlation of the residual with the signal"])

p("C26", "Energy selection returns the loudest signals unchanged",
  "Selecting the most energetic signals returns exactly `num` signals along the selected axis, ordered by decreasing power, copied unmodified from the input, chosen separately for every batch item, for any selection and reduction axis.",
  ["inputs"], "all inputs, axes and batch shapes",
  "No test calls it directly.",
  ["torchiva/utils.py"],
  [("descending argsort and gather", "torchiva/utils.py:select_most_energetic")],
  observe=["returned tensor"])

p("C27", "Separation improves the signal and iterations never diverge",
  "On convolutive mixtures of independent sources the algorithms converge, each iteration does not increase the likelihood-based cost, and the separated signals have a higher signal-to-distortion ratio than the mixture.",
  ["inputs"], "all mixtures the source model fits",
  "Thresholds on two recordings only.",
  SEP, [("majorisation-minimisation updates", "all forward loops")], observe=["cost and SDR"])

p("C28", "Beamformers satisfy their optimality conditions",
  "In exact arithmetic and with the regularisation set to zero, for every mask: the eigenvector-based (rtf) minimum-variance and the generalised-eigenvalue beamformers have response one towards the steering vector of the filter at the reference microphone; their filter is a generalised eigenvector of the target and the noise covariance, and for the largest eigenvalue; the Souden (scm) minimum-variance filter is the reference column of the inverse noise covariance times the target covariance divided by its trace; the Wiener filter solves the normal equations (R_target + R_noise) w = R_target e_ref, with time-varying weights when it is time-variant. With more masks the last one (or two) give the noise covariance as documented.",
  ["inputs", "configurations"], "all signals, masks and reference microphones; two and three channels",
  "SDR thresholds on one recording with one reference microphone: a filter that is merely good passes.",
  ["torchiva/beamformer.py", "torchiva/linalg.py"], [("closed-form filters", "torchiva/beamformer.py:compute_mvdr_bf, compute_mvdr_bf2, compute_mvdr_rtf_eigh, compute_gev_bf, compute_mwf_bf")], observe=["filters applied to the input"])

p("C29", "Linear-algebra helpers satisfy the identities that define them",
  "In exact arithmetic, away from the floors and for every matrix with or without batch dimensions, real or complex: the 2x2 inverse times the matrix is the identity; the closed-form 2x2 generalised and ordinary hermitian eigen-decompositions return the two roots in ascending order with unit eigenvectors satisfying A v = l B v (A v = l v); the generalised decomposition of larger matrices reduces to one hermitian matrix with the same eigenvalues and returns its unit eigenvectors brought back; the loaded solves and inverse solve the given system with one real number added to the diagonal (and exactly the given system when the loading is zero; the general one from the normal equations); the products, quotient, squared magnitude, magnitude, conjugate transpose and diagonal loading are what they are named after.",
  ["inputs"], "all matrices",
  "Random matrices for one seed with a 1e-5 tolerance; the ordinary 2x2 decomposition is compared without a conjugate.",
  ["torchiva/linalg.py"], [("closed forms", "torchiva/linalg.py:eigh_2x2, inv_2x2, eigh"), ("loaded systems", "torchiva/linalg.py:solve_loaded, solve_loaded_general, inv_loaded")], observe=["residuals"])

p("C30", "Each update of an algorithm solves its defining equations",
  "In exact arithmetic and off the floors, the last update of each algorithm returns the solution of the equations that define it. Source steering: the source steered last has unit weighted energy and every other source is, under its own weights, uncorrelated with it; a dereverberation step leaves every source, under its own weights, uncorrelated with the delayed channel that was steered. Overdetermined: the background is orthogonal to all sources (covariance zero), also with taps. Iterative projection: the updated filter is orthogonal, under its own weighted covariance, to the other filters and has unit weighted energy; for two sources the pair of filters are the generalised eigenvectors of the two weighted covariances. Extraction: the filter is the eigenvector of the whitened weighted covariance for the smallest eigenvalue, and the whitening makes the input covariance the identity. Linear prediction: the dereverberated signal is weighted-orthogonal to every delayed channel.",
  ["inputs", "configurations"], "all inputs, weights and numbers of sources, channels and taps",
  "SDR thresholds on two recordings: an update that solves slightly different equations still separates them.",
  ["torchiva/t_iss.py", "torchiva/auxiva_ip.py", "torchiva/auxiva_ip2.py", "torchiva/five.py", "torchiva/wpe.py"],
  [("closed-form updates", "torchiva/t_iss.py:background_update, iss_block_update_type_1/2/3, torchiva/auxiva_ip.py, torchiva/auxiva_ip2.py:spatial_model_update_ip2, torchiva/five.py, torchiva/wpe.py:wpe_one_iter")], observe=["residuals of the equations"])

p("C31", "Built-in source models return the weights of their distribution",
  "In exact arithmetic and away from the floors, for every input, real or complex and with any batch dimensions: the Laplace model returns one half over the norm over frequencies of each frame, the Gauss model one over the mean power over frequencies of each frame, both the same for all frequencies; the low-rank (NMF) model returns one over the product of its factors after one multiplicative update of the basis and then one of the activations, each by the square root of the ratio of the two parts of the gradient of the Itakura-Saito divergence at the current factors.",
  ["inputs", "histories"], "all inputs, batch shapes, ranks and states of the factors",
  "The models run only inside separators on one recording with SDR thresholds; a weight that is off by a constant, a power or one stale factor still separates.",
  ["torchiva/models/classic.py"],
  [("closed-form weights", "torchiva/models/classic.py:LaplaceModel, GaussModel"), ("multiplicative updates", "torchiva/models/classic.py:NMFModel.forward")], observe=["returned weights"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P))
