#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
from common import *
import build
import engs
import engv

TRUSTED_S = [
    "rustc and the compiled code of the kami crate instantiated at the symbolic scalar (the same generic source that runs on f32/f64)",
    "the symbolic scalar kv::sym (path forking and term building), the ring normaliser vlib/ring.py",
    "SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2 (an obligation is accepted on the word of one of them)",
]
ASSUME_S = [
    "scalars are mathematical reals extended by NaN and infinities; rounding, overflow and underflow of f32/f64 are outside the proofs (except where a contract models rounding explicitly)",
    "sqrt, sin, cos, acos are their mathematical functions",
]


TRUSTED_G = [
    "the extractor kvx (syn): the text of src/geometry/*.rs with f32 replaced by the symbolic scalar; drops tests, attributes and printing macros",
]


# contracts of functions that engine V takes from engine S: V property -> (S property, function)
SHARED = {"R03": ("G03", "utils::calculate_line_segment_intersection")}


def geo(rep, prop, of=None):
    ok, err = cargo_build("engine", ["--bin", "geoc"])
    if not ok:
        print(err[-3000:])
        return False
    rep.trusted += TRUSTED_S + TRUSTED_G
    rep.assumptions += ASSUME_S
    ok, err = build.symgeo()
    if not ok:
        rep.notes.append("extracted source does not build at the symbolic scalar: " + err[-1500:])
    engs.run(rep, prop, "geos" if ok else None, "geoc", of=of)
    return True


def main():
    prop = sys.argv[1]
    rep = Report(prop)
    cmd = "python3 /verif/check.py " + prop
    if prop[0] == "M" and prop != "M08":
        ok, err = cargo_build("engine", ["--bin", "mathc"])
        if not ok:
            print(err[-3000:])
            return 2
        rep.trusted += TRUSTED_S
        rep.assumptions += ASSUME_S
        engs.run(rep, prop, "mathc", "mathc")
    elif prop in ("G01", "G02", "G03", "G04", "G05", "G06"):
        if not geo(rep, prop):
            return 2
    elif prop in engv.OVERLAY:
        if not engv.run(rep, prop):
            return 2
        if prop in SHARED and not geo(rep, *SHARED[prop]):
            return 2
    else:
        print("unknown property")
        return 2
    return rep.finish(cmd)


sys.exit(main())
