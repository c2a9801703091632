#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification of the library's calls (spec/MatrixLib.tla), bound to the code by validating with TLC traces recorded from real calls (spec/Trace.tla)"
T = {
 "C01": "; exact element types and residues; every operation x shape x type",
 "C02": "; exhaustive shapes up to 5x5x5 plus larger; one-hot operands; Strassen model checked exhaustively in small rings (spec/Laws.tla)",
 "C03": "; elimination modelled as a state machine and checked against the permutation definition exhaustively over GF(2), GF(3) (spec/DetGauss.tla)",
 "C04": "; defining equation A*X = X*A = I in Z/p and, for floating point, on exactly representable inverses",
 "C05": "; square-and-multiply modelled and checked against iteration (spec/PowAlgo.tla); every exponent in a range, exponent types down to signed char",
 "C06": "; Doolittle loops modelled and checked against leading minors (spec/LuAlgo.tla)",
 "C07": "; factorisation modelled over GF(7) (spec/CholAlgo.tla); floating point on factors that are exactly representable",
 "C08": "; failing and succeeding calls interleaved",
 "C09": "; same/full/valid cropping laws model checked (spec/Laws.tla)",
 "C10": "", "C11": "", "C12": "",
 "C13": "; a single deviating element at every position",
 "C14": "", "C15": "",
 "C16": "; call histories with re-used, changed, aliased operands and failing calls; operands logged after every call",
 "C17": "; interleavings enumerated by TLC (spec/Conc.tla) and executed deterministically on the real code through an element type that yields at every operation",
 "C18": "; allocation counter logged per call",
 "C19": "; address-sanitised exact-size build, guard bytes, poisoned uninitialised elements",
 "C20": "; bytes of standard output logged",
 "C22": "; rounding as nondeterminism within error bounds (spec/Float.tla, spec/FloatTrace.tla) over integers of any size (spec/Big.tla); the bounds model checked for every order of summation in a toy floating-point format (spec/FloatAlgo.tla)",
 "C23": "; programs of several translation units enumerated by TLC (spec/Units.tla), built, linked and run, their calls validated",
 "C24": "; thousands of calls of all small shapes put to the compiler, and TLC decides by ENABLED of the actions which ones it has to accept (spec/Shapes.tla)",
 "C21": "; behaviours generated by TLC from spec/Gen.tla replayed against the code, results feeding later calls",
}
NOTE = ("Holds for every execution explored (counts in the evidence file), each compared with the specification by TLC, nothing with hand-written expected "
        "values. Trusted: TLC, the driver (harness/), the projection of values into the specification's domains (lib/vlib.py), g++. The specification is "
        "exact; over machine types results are compared as residues or exact rationals, floating point on inputs whose exact result is representable "
        "or within the stated rounding distance of it.")
checks = [dict(property=k, quick_cmd="python3 check.py --prop %s" % k, thorough_cmd="python3 check.py --prop %s --tier thorough" % k,
               evidence_file="evidence/%s.json" % k, technique=TV + v, level="model_checking", level_note=NOTE) for k, v in sorted(T.items())]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[], notes="TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: the library is header-only templates, and everything is observed from outside. KNOWN_FINDINGS.txt lists what was found and repaired.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
