#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "py": "abstract interpretation of the Python source: symbolic shapes plus homogeneity-degree (unit-of-measure) types, path-sensitive over sizes and options",
    "cpp": "abstract interpretation of the C++/CUDA/Helion kernel sources (own parser): symbolic access ranges, parallel write sets and loop-carried recurrence extraction under the guards on the path",
    "both": "abstract interpretation: homogeneity types over the Python source, loop-recurrence extraction over the C++/CUDA/Helion kernel sources",
    "reg": "registration-table queries plus comparison of abstractly interpreted fake kernels, real kernels and gradient rules (shape, dtype, device, stride, rejection)",
}
CLAIM = {
    "C01": "cpp", "C02": "cpp", "C03": "both", "C04": "reg", "C05": "both", "C06": "py", "C07": "py", "C08": "py", "C09": "py", "C10": "py",
    "C11": "py", "C12": "py", "C13": "py", "C14": "py", "C15": "py", "C16": "py", "C17": "py",
}
NOTE = {
    "py": ("Every size- and option-dependent path of the listed entry points is typed for all sizes at once; the models of torch "
           "operations are trusted; paths the analysis cannot finish are reported as undetermined in the evidence and never alarm. "
           "Homogeneity types decide structure (which element meets which), not numerical values or unit constants."),
    "cpp": ("Every rank combination a registered kernel accepts is followed through the guards of its entry point; loads, stores and loops "
            "are bounded symbolically for all sizes. Own parser for the C++ subset used (no torch or CUDA headers exist here); the listed "
            "ATen, Thrust and CUDA facts are trusted. Goals that can neither be proved nor refuted on a concrete feasible size are "
            "counted as undetermined and never alarm."),
    "reg": ("Exact over the registration calls found in the sources; fake and real kernels are compared on every rank combination with "
            "symbolic sizes. Undetermined comparisons are counted and never alarm."),
}
NOTE["both"] = NOTE["py"] + " " + NOTE["cpp"]
NA = {
    "N01": "agreement of floating-point values with SciPy is a numerical statement; no type, dataflow or effect argument bounds it (the structural half is C06-C12)",
    "N02": "an error bound in terms of eigenvector conditioning is numerical analysis of run-time values, outside any static argument over the source",
    "N03": "convergence of the Newton iteration depends on the contraction of a user-supplied function",
    "N04": "the residue algebra involves division by run-time pole differences and data-dependent root grouping; equality of rational functions is not decidable by these analyses",
    "N05": "that the spline passes through the samples depends on the numerical value of the pole and kernel constants, to which a homogeneity type is blind",
}


def main():
    have = {json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))}
    na = dict(NA)
    for p in sorted(have - set(CLAIM) - set(na)):
        na[p] = "analysis under construction"
    m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(sys.version_info < (3, 10))'", checks=[], not_applicable=[])
    for p, k in sorted(CLAIM.items()):
        m["checks"].append(dict(
            property=p, quick_cmd=f"python3 check.py --property {p} --tier quick",
            thorough_cmd=f"python3 check.py --property {p} --tier thorough",
            technique=TECH[k], level="other", level_note=NOTE[k]))
    for p, r in sorted(na.items()):
        m["not_applicable"].append(dict(property=p, reason=r))
    m["notes"] = "Known findings and repairs: known-findings.txt. No hooks: nothing of the repository is executed."
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
