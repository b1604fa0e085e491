#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "abstract interpretation of the source to a symbolic value graph, compared with the required formula (value numbering over symbolic arrays)"
RN = ("Decides each obligation from the current source text (syntax trees, resolved names, call graph, data flow); nothing of the package is executed. "
      "Constructs outside the rule's reach are counted as undecided in the evidence, not reported. Scope: ")
CLAIMED = {
    "C01": ("may-alias and write-effect analysis over the call graph with function summaries", "every public function and method, every parameter documented as an array, container or callable", RN),
    "C02": ("call-graph reachability and effect rule for random sources and seeding", "every function and module of the package, every random draw or generator construction", RN),
    "C03": ("effect analysis of global state: module-level stores, mutable defaults, seeding and settings of libraries", "every function reachable from the public surface", RN),
    "C16": ("call-graph and signature rule: every wrapper, alias and deprecated name forwards its arguments to the function it stands for", "every deprecated name, alias, re-export and forwarding wrapper", RN),
    "C20": ("termination rule: every loop is over a finite iterable not grown in the body, or has an exit whose measure strictly moves; recursion is well founded", "every loop and recursion of the package", RN),
    "C21": ("typestate of process pools and files: acquired resources are released on every path, results keep their order; block-wise work independent of the map function", "every pool, file and executor of the package", RN),
    "C22": ("name resolution, path-sensitive definite assignment and signature matching", "every module, function, name, attribute of self, call and export of the package", RN),
    "C04": (VG, "per call context of the table"),
    "C05": (VG, "per call context of the table"),
    "C06": (VG, "per call context of the table"),
    "C07": (VG, "per call context of the table"),
    "C08": (VG, "per call context of the table"),
    "C09": (VG, "per call context of the table: 2 to 4 nodes with symbolic positions, every point order decided, all kinds and fill options"),
    "C10": ("abstract interpretation to a symbolic value graph; each returned covariance compared with its own transpose", "per call context of the table"),
    "C11": ("abstract interpretation: symbolic shape inference compared with the documented shapes", "per call context of the table"),
    "C14": (VG, "block-wise statistics against the statistics of the pooled samples, for symbolic number of runs, block size and draws"),
    "C23": (VG, "per call context of the table: sos_FreqResp, sos_phys2filter, sos_realimag, sos_absphase and fit_som, scalar and vector parameters, symbolic number of frequencies"),
    "C27": (VG, "per call context of the table: IIRuncFilter with symbolic input, numeric coefficients of order up to 2, scalar and per-sample noise, any covariance"),
    "C15": (VG, "per call context of the table: MC, SMC and UMC on AR/ARMA propagation through filters, symbolic signal length and number of runs, symbolic draws"),
    "C24": (VG, "per call context of the table: LSFIR, invLSFIR, LSIIR and invLSIIR (the fit without stabilisation), invLSFIR_unc, invLSFIR_uncMC; symbolic response, frequencies, weights and covariance"),
    "C25": (VG, "per call context of the table: every test signal and noise model, symbolic time axis and parameters"),
    "C26": (VG, "Signal construction (every combination of uncertainty, Ts and Fs), inconsistent arguments, labels and sequences of up to three filter applications; symbolic signal, filter and number of runs"),
    "C28": (VG, "per call context of the table: db, angle, isstable, mapinside, grpdelay, kaiser_lowpass, shift/trim/pad functions, ua/FreqResp2RealImag and the misc tools"),
    "C18": ("abstract interpretation with a dtype lattice: stores of fractional values into integer arrays, and value graph for integer inputs", "per call context"),
}
NA = {
    "C29": "statistical convergence quantifies over the distribution of random draws and over sample size; no static argument on the source bounds it",
    "C30": "whether the stabilised poles of a numerical fit lie inside the unit circle depends on runtime root locations and on an iteration with data-dependent exit; no sound static bound in reach",
    "C31": "rounding error of library linear algebra for arbitrary (possibly ill-conditioned) runtime data cannot be bounded from the source",
    "C32": "positive semi-definiteness in floating point depends on runtime eigenvalues; only the exact-arithmetic form J V J^T is visible statically (decided under C05-C08, C27)",
}
NOTE = ("Decides each obligation from the current source text by abstract interpretation over symbolic array contents and lengths; nothing of the package is executed. "
        "Equality is exact real arithmetic by normal form (or, where stated in the evidence, by evaluating both value graphs at generic points). "
        "Trusts the library models in pda/npmodel.py and pda/npfuncs.py and the case table; obligations that cannot be decided are counted as undecided in the evidence, not reported. Scope: ")
TH = "C01 C02 C03".split()


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in ids:
        if p in CLAIMED:
            t = CLAIMED[p]
            checks.append({"property": p, "quick_cmd": "python3 -m pda.check %s" % p,
                           "thorough_cmd": "python3 -m pda.check %s --tier thorough" % p,
                           "technique": t[0], "level": "other", "level_note": (t[2] if len(t) > 2 else NOTE) + t[1] + "."})
    na = [{"property": p, "reason": NA.get(p, "not claimed yet: the analysis is being built")} for p in ids if p not in CLAIMED]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
