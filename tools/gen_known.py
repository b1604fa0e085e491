#!/usr/bin/env python3
"""Writes /verif/known_findings.txt (development helper; checks only read the file)."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [("C25", "sine:%s/sineperiod" % c, "sine uses its argument freq, documented as frequency in Hz, as the period: amp*sin(2*pi/freq*time) (test/test_signals.py expects this)")
         for c in ("basic", "basic-noise", "basic-int", "basic-int-noise")]   # (property, key, what)
FIXED = """C17 cdb94ca GUM_DFT(returnC=True) with a noise variance given as float returned no sensitivity matrix
C16 a80801c PyDynamic.uncertainty.interpolation not importable as attribute
C26 0d94a3c Signal.apply_filter used wrong arguments and lost the uncertainty
C26 ed5c566 uncertainty passed to Signal ignored or of wrong size
C26 3927767 Signal ignored Fs without Ts and integer Ts
C22 465fedf make_equidistant advertised by PyDynamic.uncertainty but missing
C03 5b37767 importing PyDynamic reset the warning filters of the program
C18 49bff67 interp1d_unc with integer fill_unc truncated uncertainties
C09 c3a809f interp1d_unc(fill_value='extrapolate') raised
C07 ae07886 FIRuncFilter treated standard uncertainties of the coefficients as variances
C07 d046f78 FIR filters with one coefficient failed
C25 43c1ddc multi_sine used frequencies instead of angular frequencies
C25 0033f89 corr_noise.calc_noise2 wrong
C18 34096a1 multi_sine and squarepulse truncated on integer time axes
C25 52c81d1 noise level of multi_sine
C26 1017b72 Signal given both Ts and Fs had no attribute Fs
C25 9ece545 squarepulse misplaced its pulses on time axes not starting at zero
C25 98b4db9 power_law_noise with N and w
C25 0d3a8de order of the coefficients in ARMA
C28 b7d1eec stability of analog filters
C28 3fddd8e delay of kaiser_lowpass
C28 eea6695 FreqResp2RealImag averaged over frequencies instead of runs
C20 e2ab4ea make_semiposdef ignored maxiter for dense matrices
C24 6e4282e fit_som weighting by uncertainties needed UH but was applied without
C23 83171e8 sensitivity of the damping in fit_som
C24 02e3d64 LSIIR/justFit did not return the delay of the fit
C24 e5aeab3 invLSFIR_unc propagated through the reciprocal of the conjugate
C24 13607fe weighted fit in invLSFIR_unc
C24 4dcd492 only one side of the least-squares problem of invLSFIR was weighted
C24 30681cb weighting matrices in LSFIR and invLSFIR
C24 f2be78d LSFIR fitted the reciprocal and left the right-hand side unweighted
C15 38e0e61 SMC
C21 d3e4674 worker processes of UMC_generic not shut down
C17 4f5123a UMC ignored nbins
C21 520151f results of parallel Monte Carlo evaluations not in order of samples
C14 5686af1 upper histogram edge of UMC_generic missed the largest results
C14 ff8adb2 UMC_generic evaluated a wrong number of runs
C14 0acf709 covariance of the first block in UMC_generic not normalised
C27 d225993 IIRuncFilter
C07 243e4a9 FIRuncFilter shifted only the rows of the covariance
C07 af50225 FIRuncFilter ignored shift for diagonal covariances
C07 2eb678f scalar uncertainties in FIRuncFilter
C16 c51ed2e Time2AmpPhase_multi passed sensitivities as N and window
C18 1df9d76 products with integer covariance matrices truncated
C17 f574e91 vector of variances together with a window in GUM_DFT rejected
C11 c2f5b88 DFT_multiply returned no covariance matrix for uncorrelated input
C10 06c49fa asymmetric covariance in GUM_iDFT and AmpPhase2Time
C04 db502dd wrong cross block in AmpPhase2DFT for sparse covariances
C05 6af259b wrong sensitivity of the imaginary part in DFT_deconv"""
L = ["# known: property=<id> key=<analysis key> | <what fails>      (reported as KNOWN-FINDING, suppresses exactly that key)",
     "# fixed: property=<id> <commit> <what failed>                  (repaired in /repo; suppresses nothing)"]
for p, k, w in KNOWN:
    L.append("known: property=%s key=%s | %s" % (p, k, w))
for l in FIXED.split("\n"):
    p, c, w = l.split(" ", 2)
    L.append("fixed: property=%s %s %s" % (p, c, w))
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(L) + "\n")
