#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
U = "PyDynamic/uncertainty/"
M = "PyDynamic/misc/"
E = "PyDynamic/model_estimation/"


def prop(id, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


prop("C01", "Calls never modify the caller's data",
     "No public function or class of the package changes the content of an array, list or dictionary that its caller "
     "passed in as an argument, on any path through the code. What a call computes is only handed back through its return value "
     "(or, for objects, stored in the object itself).",
     ["inputs", "programs"],
     "every public callable, every argument that is a mutable container, every combination of types/shapes/options and every path",
     "Tests call each function once per fixture and compare results; none compares the arguments before and after, and the paths "
     "that would write in place depend on types and options tests do not combine.",
     ["PyDynamic"],
     [("copies and fresh arrays made before in-place statements", U + "propagate_DFT.py:_apply_window, _prod"),
      ("fresh output arrays", U + "interpolate.py:interp1d_unc; " + M + "tools.py:make_semiposdef")])

prop("C02", "Random numbers come only from numpy's global generator",
     "Every random number used anywhere in the package is drawn from numpy's global random generator (or, for the noise object that takes "
     "its own seed, from the generator it owns), and nothing in the package seeds, replaces or restores that generator. Functions documented as closed-form "
     "(no Monte Carlo, no noise) draw no random numbers, so a fixed seed reproduces every single-process result.",
     ["histories", "inputs", "configurations"],
     "every public function, every option combination, every position in a seeded program",
     "A test that seeds and compares two runs samples one option set; reseeding or a foreign entropy source in another branch "
     "leaves all existing assertions true.",
     ["PyDynamic"],
     [("np.random.* draws", U + "propagate_MonteCarlo.py, " + M + "noise.py, " + M + "testsignals.py, " + M + "SecondOrderSystem.py, " + M + "tools.py, " + E),
      ("own RandomState of the noise object", M + "testsignals.py:corr_noise")])

prop("C03", "No hidden state: calls are independent of history and leave globals alone",
     "The result of a call depends only on its arguments (and the random generator), never on which calls were made before: nothing is cached, "
     "remembered in modules, classes, functions or default arguments. Importing or calling the package does not change process-wide settings such as warning filters, numpy error/print "
     "state, environment variables or the working directory.",
     ["histories", "programs"],
     "every sequence of calls and imports of any part of the package",
     "Each test runs a function in one fresh history; state leaking from one call to the next shows up only for particular orders of calls.",
     ["PyDynamic"],
     [("functions keep all state in locals; instance state is set in constructors", "PyDynamic"),
      ("module-level constants never written", M + "noise.py:colors")])

prop("C04", "Amplitude/phase and real/imaginary spectra convert by the law of propagation",
     "Converting a spectrum between real/imaginary and amplitude/phase form returns exactly the transformed values and the covariance obtained from the "
     "analytical sensitivities (J U J^T), for every entry including the cross blocks. Dense, diagonal (vector) and sparse "
     "representations of the same input covariance yield the same output covariance.",
     ["inputs", "configurations"],
     "all real spectra of any length, all symmetric covariances in each supported representation, both keep_sparse and return_type options",
     "Tests check one synthetic signal with loose tolerances, mostly diagonal input covariances, and never the sparse input branches with non-zero cross terms.",
     [U + "propagate_DFT.py"],
     [("closed-form sensitivities per representation", U + "propagate_DFT.py:DFT2AmpPhase, AmpPhase2DFT")])

prop("C05", "Deconvolution and multiplication in the frequency domain propagate exactly",
     "Division and multiplication of two spectra given by real and imaginary parts return the complex quotient/product and, for each supported "
     "representation of the uncertainties (none, scalar, vector of variances, full matrix), the full covariance given by the analytical sensitivities with respect to both operands, with the operands taken as mutually uncorrelated. "
     "The transfer-function estimate and the deprecated deconvolution alias are the same division.",
     ["inputs", "configurations"],
     "all spectra and symmetric covariances of any even length in each supported representation, every entry of the result",
     "The tests compare one example with a Monte Carlo run at a few percent tolerance, or only that the call does not raise.",
     [U + "propagate_DFT.py"],
     [("closed-form sensitivities", U + "propagate_DFT.py:DFT_deconv, DFT_multiply, _matprod"),
      ("aliases", U + "propagate_DFT.py:DFT_transferfunction, GUMdeconv")])

prop("C06", "DFT, inverse DFT and amplitude/phase-to-time transforms propagate exactly",
     "The discrete Fourier transform, its inverse, and the transform from amplitude/phase to the time domain return the values of the textbook transform (with window and zero padding applied where given) and the covariance "
     "C U C^T with C the exact sensitivity matrix of that transform. Scalar, vector, matrix and sparse forms of the same input uncertainty give the same result, and returned sensitivity blocks are the ones used.",
     ["inputs", "configurations"],
     "all signals of any even/odd length, any window, any zero padding, each representation of the input covariance",
     "Tests use a handful of signals, uncorrelated noise and even lengths; the identities must hold entrywise for every length, window and correlated covariance.",
     [U + "propagate_DFT.py"],
     [("sensitivity matrices built row by row", U + "propagate_DFT.py:GUM_DFT, GUM_iDFT, AmpPhase2Time"),
      ("windowing", U + "propagate_DFT.py:_apply_window")])

prop("C07", "FIR filtering propagates signal and coefficient uncertainty exactly",
     "Filtering with an uncertain FIR filter returns the convolution of the signal (continued constantly into the past) with the coefficients, and as uncertainty the "
     "exact covariance of that product model: signal part, coefficient part and their product term. Scalar, vector and matrix descriptions of the same uncertainties, the fast and the full-covariance "
     "path, the optional preceding low-pass, and the output shift all describe this one result.",
     ["inputs", "configurations"],
     "all signals, filters, covariances, each representation of the uncertainties, all option combinations",
     "Tests compare against Monte Carlo with loose tolerance for one filter, zero shift and float signals.",
     [U + "propagate_filter.py"],
     [("fast path", U + "propagate_filter.py:_fir_filter_diag"), ("full path", U + "propagate_filter.py:_fir_filter"),
      ("constant continuation of the covariance", U + "propagate_filter.py:_stationary_prepend_covariance")])

prop("C08", "Convolution of uncertain signals is exact in every mode",
     "The convolution of two uncertain signals returns, in each mode of documented output length, the convolution values of the correspondingly padded signals and the covariance of the bilinear product "
     "model. The operands are exchangeable, and an operand given without uncertainty is treated as exactly known.",
     ["inputs", "configurations"],
     "all signal lengths (either operand longer), all covariances including none, all modes",
     "Tests sample a few lengths and compare values with numpy and covariances with Monte Carlo at loose tolerances.",
     [U + "propagate_convolution.py", U + "propagate_filter.py"],
     [("padding and slicing per mode", U + "propagate_convolution.py:convolve_unc"), ("FIR core with zero initial state", U + "propagate_filter.py:_fir_filter")])

prop("C09", "Interpolated uncertainties follow the interpolation weights",
     "Inside the data range, linearly interpolated uncertainties are the root of the sum of squared (weight times input uncertainty) with exactly the two weights linear interpolation puts on the neighbouring points, and the returned sensitivity matrix holds "
     "those weights; for step-like kinds the uncertainty is interpolated by the same rule as the value. Outside the range the documented fill values apply below and above, and unsorted inputs are "
     "reordered together.",
     ["inputs", "configurations"],
     "all data sets, all evaluation points, each interpolation kind, each combination of fill and sorting options, with and without sensitivities",
     "Hypothesis tests sample small arrays and check bounds on the uncertainties rather than the exact law.",
     [U + "interpolate.py"],
     [("neighbour search and weights", U + "interpolate.py:interp1d_unc"), ("equidistant grid", U + "interpolate.py:make_equidistant")])

prop("C10", "Returned covariances are symmetric and cross blocks transpose each other",
     "Every covariance matrix returned by a closed-form propagation function is exactly symmetric whenever the covariances supplied are symmetric: entry (i,j) and entry (j,i) are the same formula.",
     ["inputs", "configurations"],
     "all inputs with symmetric covariances, each representation and option that returns a full matrix",
     "Tests compare diagonals or use uncorrelated inputs, for which an unsymmetric cross block vanishes.",
     [U + "propagate_DFT.py", U + "propagate_filter.py", U + "propagate_convolution.py", E + "fit_filter.py", E + "fit_transfer.py"],
     [("block assembly with transposed cross block", U + "propagate_DFT.py:GUM_DFT, DFT2AmpPhase, AmpPhase2DFT, DFT_deconv, DFT_multiply"),
      ("sandwich products", U + "propagate_DFT.py:GUM_iDFT, AmpPhase2Time; " + E + "fit_filter.py:invLSFIR_unc")])

prop("C11", "Documented number and shape of results for every input representation",
     "For all admissible inputs, each propagation and estimation function returns the documented number of results with the documented dimensions as functions of the input "
     "dimensions, whichever documented representation (scalar, vector, matrix, sparse, none) the uncertainty is given in.",
     ["inputs", "configurations"],
     "every public function with documented shapes, symbolic input lengths, each documented representation and option",
     "Tests fix particular lengths and cover only some of the representations per function.",
     ["PyDynamic"],
     [("shape handling per representation", U + "propagate_DFT.py, propagate_filter.py, propagate_convolution.py, interpolate.py, propagate_MonteCarlo.py; " + E)])

prop("C12", "Closed-form results are covariant under a change of units",
     "Expressing the inputs of a closed-form function (spectral transforms, filtering, convolution, interpolation, second-order-system formulas, filter fits) in other units rescales each result by exactly the power of the unit factor its physical dimension "
     "demands; in particular variances scale with the square of standard uncertainties, and no absolute threshold or additive constant enters.",
     ["inputs"],
     "all inputs and all positive rescalings of signal, response and time units",
     "Tests run at one scale; a standard uncertainty used where a variance is needed, or a fixed threshold, coincides with the right result at unit scale.",
     ["PyDynamic/uncertainty", "PyDynamic/model_estimation", "PyDynamic/misc"],
     [("squares and roots at each std/variance boundary", U + "propagate_filter.py, propagate_DFT.py, interpolate.py; " + M + "SecondOrderSystem.py; " + E)])

prop("C13", "Monte Carlo and noise functions use uncertainties in the right dimension",
     "Functions that draw random numbers use each uncertainty argument as what it is documented to be: covariance matrices as covariances, vectors and scalars as standard deviations. "
     "Consequently rescaling the units of the inputs rescales the drawn samples, estimates and covariances by the powers their dimensions demand.",
     ["inputs", "configurations"],
     "all inputs, all positive rescalings, each representation of the uncertainty, each branch that draws",
     "Statistical tests have loose tolerances, run at one scale, and skip most representations.",
     [U + "propagate_MonteCarlo.py", M + "noise.py", M + "testsignals.py", M + "SecondOrderSystem.py", M + "tools.py", E + "fit_filter.py", E + "fit_transfer.py"],
     [("draws from normal distributions", U + "propagate_MonteCarlo.py:MC, SMC, _UMCevaluate; " + E + "fit_transfer.py:fit_som")])

prop("C14", "Block-wise Monte Carlo equals the statistics of all samples",
     "The generic block-wise Monte Carlo evaluation draws and evaluates exactly the requested number of samples, and its running mean and covariance updates reproduce the mean and unbiased covariance of all evaluations, "
     "for every split into blocks. Returned samples and results correspond to each other row by row, and the histogram edges are widened to cover every result.",
     ["inputs", "configurations", "schedules"],
     "all numbers of runs, block sizes (dividing the runs or not), output dimensions, worker counts and completion orders",
     "Tests use a single block size that divides the runs and only check shapes.",
     [U + "propagate_MonteCarlo.py"],
     [("mean/covariance update", U + "propagate_MonteCarlo.py:UMC_generic"), ("block loop", U + "propagate_MonteCarlo.py:UMC_generic")],
     [("y, Uy", "running mean and covariance", U + "propagate_MonteCarlo.py:UMC_generic")])

prop("C15", "Monte Carlo estimates use every stable run and no unstable one",
     "In the Monte Carlo propagation through a digital filter, each run filters one fresh draw of the signal with one drawn coefficient set; the returned mean and covariance are those of exactly the runs whose drawn "
     "filter is stable, after the optional low-pass and output shift.",
     ["inputs", "configurations"],
     "all signals, filters and uncertainties, in particular those for which some drawn filters are unstable",
     "Tests use filters whose draws are practically always stable.",
     [U + "propagate_MonteCarlo.py", M + "filterstuff.py"],
     [("stability test selects rows", U + "propagate_MonteCarlo.py:MC"), ("isstable", M + "filterstuff.py:isstable")])

prop("C16", "Deprecated names and wrappers give the same result as the current function",
     "Every deprecated or convenience entry point accepts the same parameters with the same defaults as the function it stands for and forwards each of them unchanged to the "
     "parameter of the same meaning, returning that function's result unchanged.",
     ["inputs", "programs"],
     "every deprecated alias and wrapper, all argument combinations",
     "Tests call aliases with default options at most, so a dropped or swapped optional argument goes unnoticed.",
     ["PyDynamic/deconvolution/fit_filter.py", "PyDynamic/identification", U + "propagate_DFT.py", M + "tools.py"],
     [("keyword forwarding", "PyDynamic/deconvolution/fit_filter.py, PyDynamic/identification/fit_transfer.py"),
      ("aliases", U + "propagate_DFT.py:DFT_transferfunction, GUMdeconv; " + M + "tools.py:make_equidistant")])

prop("C17", "Every documented option has its effect on every path",
     "Each parameter of each public function influences what the call returns, raises or prints on every path for which the documentation does not exempt it; no documented option is accepted and then silently ignored.",
     ["inputs", "configurations"],
     "every parameter of every public function, every path through the function",
     "Tests rarely combine options; an option ignored in one branch keeps all existing assertions true.",
     ["PyDynamic"],
     [("options read in each branch", U + "propagate_filter.py:FIRuncFilter; " + U + "propagate_MonteCarlo.py:UMC, SMC; " + E + "fit_filter.py")])

prop("C18", "Integer-valued inputs are not truncated",
     "Passing the same numbers as integer arrays instead of floating point arrays gives the same results: no fractional intermediate or final value is stored into an integer array.",
     ["inputs"],
     "every public function, every argument that may be an array of integers",
     "Tests build their inputs with float-producing numpy functions throughout.",
     ["PyDynamic"],
     [("allocation of result arrays independent of the input dtype", U + "propagate_DFT.py:_prod; " + U + "propagate_filter.py; " + M + "testsignals.py")])

prop("C19", "Inconsistent dimensions are rejected",
     "When the dimensions of a signal, spectrum, covariance or time axis contradict each other, the functions documented to check this raise an error before computing, instead of returning a result.",
     ["inputs"],
     "all inconsistent combinations of lengths and shapes for the documented checks",
     "Tests try one or two mismatches of the documented checks.",
     [U + "propagate_DFT.py", U + "interpolate.py", M + "tools.py", "PyDynamic/signals.py", E + "fit_transfer.py", U + "propagate_MonteCarlo.py"],
     [("shape guards", U + "propagate_DFT.py:GUM_DFT, GUM_iDFT, AmpPhase2DFT, AmpPhase2Time, DFT_deconv, DFT_multiply"),
      ("length guards", U + "interpolate.py:interp1d_unc; " + M + "tools.py; PyDynamic/signals.py")])

prop("C20", "Every call terminates",
     "Every loop in the package whose exit depends on computed numbers is also bounded by an iteration count that strictly advances, and recursion does not occur; so every call returns after finitely many steps, whatever the data.",
     ["inputs"],
     "all inputs, including those for which the numerical exit criterion is never met",
     "Tests use well-behaved data for which the numerical criterion is reached at once.",
     [M + "tools.py", E + "fit_filter.py", M + "impinvar.py"],
     [("iteration counters", M + "tools.py:make_semiposdef; " + E + "fit_filter.py:LSIIR, invLSIIR")])

prop("C21", "Worker processes are released and results keep their order",
     "Every worker pool the package starts is shut down on every path out of the call that started it, including failing ones, and parallel evaluation hands results back in the order of the samples.",
     ["schedules", "histories", "fault_sequences"],
     "all worker counts, all scheduling orders of the workers, evaluation functions that raise",
     "Leaked processes and permuted results do not show in assertions on means and shapes.",
     [U + "propagate_MonteCarlo.py"],
     [("pool life cycle", U + "propagate_MonteCarlo.py:UMC_generic")])

prop("C22", "Everything the package advertises exists and resolves",
     "Every name a module or package exports can be imported, and every name used inside any function resolves to an import, definition, parameter or builtin on every path, with calls inside the package matching the "
     "signature of the function called.",
     ["programs", "inputs"],
     "all modules, all exported names, all functions and branches",
     "Names in branches no test reaches are never looked up.",
     ["PyDynamic"],
     [("imports and export lists", "PyDynamic/__init__.py and subpackages")])

prop("C23", "Second-order-system formulas agree with each other",
     "The frequency response, the filter coefficients and the parameter estimate of a second-order system describe one and the same transfer function S*w0^2/(w0^2 + 2j*d*w0*w - w^2), for scalar and for "
     "array parameters; the covariance of estimated parameters uses the exact derivatives of the parameter transformation.",
     ["inputs", "configurations"],
     "all parameter values and frequencies, scalar and vectorised calls, weighted and unweighted estimates",
     "Tests check scalar/array agreement at sampled values and that fits are near the truth; derivative errors stay within tolerance.",
     [M + "SecondOrderSystem.py", E + "fit_transfer.py"],
     [("formulas", M + "SecondOrderSystem.py:sos_FreqResp, sos_phys2filter"), ("parameter transformation and its Jacobian", E + "fit_transfer.py:fit_som")])

prop("C24", "Filter fits solve the stated least-squares problem",
     "The FIR and IIR filter estimates minimise the documented (weighted) least-squares deviation between the filter's frequency response and the given response, or its reciprocal for the inverse variants, with the documented delay; "
     "weights act on model and data alike, and the coefficient covariance is the propagated covariance of the data.",
     ["inputs", "configurations"],
     "all responses, frequencies, orders, delays and weights",
     "Tests fit a few examples without weights and compare with stored outcomes or loose tolerances.",
     [E + "fit_filter.py"],
     [("normal equations and design matrices", E + "fit_filter.py:_fitIIR, LSFIR, invLSFIR, invLSFIR_unc, invLSFIR_uncMC")])

prop("C25", "Test signals and noise models follow their formulas",
     "Test signals equal their documented closed-form expression plus independent noise of the given standard deviation, coloured noise and its autocovariance use the same spectral exponent, and ARMA noise satisfies its "
     "difference equation with coefficient k acting on the value k steps back.",
     ["inputs", "configurations"],
     "all parameter values, time axes, model orders",
     "Tests check maxima or moments at one parameter set.",
     [M + "testsignals.py", M + "noise.py"],
     [("formulas", M + "testsignals.py"), ("recurrence", M + "noise.py:ARMA")])

prop("C26", "Signal objects keep time axis, values and uncertainty consistent",
     "A signal object always carries sampling interval and frequency that are reciprocal to each other, and applying a filter replaces values and uncertainty together by the result of the documented propagation, with the stored point-wise "
     "standard uncertainties interpreted as such, for every admissible combination of filter type and options.",
     ["inputs", "configurations", "histories"],
     "all constructor argument combinations and all filter calls",
     "The single test builds one signal and applies two filters without checking the numbers.",
     ["PyDynamic/signals.py"],
     [("constructor", "PyDynamic/signals.py:Signal.__init__"), ("dispatch", "PyDynamic/signals.py:Signal.apply_filter")],
     [("Ts, Fs", "sampling interval and frequency", "PyDynamic/signals.py:Signal"), ("values, uncertainty", "the signal", "PyDynamic/signals.py:Signal")])

prop("C27", "IIR filtering propagates uncertainty by the exact sensitivities",
     "Filtering with an uncertain IIR filter advances the state-space recursion of the filter and of all its coefficient sensitivities consistently from step to step: the output is the filter output, and the variance combines the exact derivatives of the "
     "output with respect to every coefficient with their covariance and the noise propagated through the filter.",
     ["inputs", "histories"],
     "all filters of any order, all signals, noise levels and coefficient covariances; every time step",
     "The only test of the function is an empty stub.",
     [U + "propagate_filter.py"],
     [("state-space recursion", U + "propagate_filter.py:IIRuncFilter")])

prop("C28", "Filter utilities implement their stated definitions",
     "The helper functions for digital filters follow their definitions for all inputs: decibel and unwrapped phase, stability decided by the pole positions of the stated filter type, reflection of only the unstable poles into the unit circle, "
     "group delay of the coefficients, low-pass delay in samples, shifting, trimming and padding of signals together with their uncertainty, and coordinate change of a response with uncertainty.",
     ["inputs", "configurations"],
     "all coefficient vectors, filter types, lengths and shifts",
     "Tests check a handful of values or only that the call returns.",
     [M + "filterstuff.py", M + "tools.py", M + "impinvar.py"],
     [("formulas", M + "filterstuff.py"), ("paired shifting", M + "tools.py:shift_uncertainty, trimOrPad, FreqResp2RealImag")])

prop("C29", "Monte Carlo estimates converge to the analytical result",
     "For increasing numbers of runs, the means and covariances returned by the Monte Carlo functions converge to the true moments of the propagated distribution.",
     ["inputs"], "all inputs and run numbers", "Statistical convergence can only be sampled.",
     [U + "propagate_MonteCarlo.py"], [("sampling loops", U + "propagate_MonteCarlo.py")])

prop("C30", "Stabilised IIR fits are stable",
     "When an IIR filter fit reports success its poles lie inside the unit circle.",
     ["inputs"], "all frequency responses and orders", "Depends on root locations of fitted polynomials for arbitrary data.",
     [E + "fit_filter.py"], [("stabilisation loop", E + "fit_filter.py:LSIIR, invLSIIR")])

prop("C31", "Results are accurate to rounding error",
     "Floating point results agree with exact arithmetic up to a small multiple of the rounding error times the condition number of the problem.",
     ["inputs"], "all inputs", "Tests use benign scales.",
     ["PyDynamic"], [("numpy/scipy kernels", "PyDynamic")])

prop("C32", "Returned covariances are positive semi-definite in floating point",
     "Every covariance matrix returned for a positive semi-definite input covariance is positive semi-definite up to rounding, and the repair function returns a matrix whose smallest eigenvalue reaches the tolerance.",
     ["inputs"], "all inputs", "Eigenvalues are sampled at best.",
     ["PyDynamic/uncertainty", M + "tools.py"], [("sandwich products", U + "propagate_DFT.py"), ("eigenvalue repair", M + "tools.py:make_semiposdef")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
