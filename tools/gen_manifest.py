import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S_TECH="contracts on the compiled generic code, verification conditions by symbolic execution, discharged by a ring normaliser and SMT (z3, cvc5)"
S_NOTE="Every obligation is proved for all real inputs and all paths of the actual compiled generic functions (instantiated at a symbolic scalar); floating-point rounding is outside the proof. Trusted: rustc, the symbolic scalar, the ring normaliser, the SMT solvers. Each run also executes the contracts on f64 with sampled inputs."
claims={}
for i in range(1,8): claims["M0%d"%i]=(S_TECH,S_NOTE,"proof")
exec(open(os.path.join(here,"tools","claims.py")).read()) if os.path.exists(os.path.join(here,"tools","claims.py")) else None
NA={
"R07":"Fails on the pinned code in general (nodes snapped within a tolerance move edges, overlapping collinear edges are not merged): the intersection arithmetic is single precision and tolerance-based, so global planarity is not an invariant the code establishes; a contract for it would need a floating-point error theory no verifier here has.",
}
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,"setup_cmd":"python3 /verif/setup.py","checks":[],"not_applicable":[]}
for p in props:
    if p in claims:
        t,n,l=claims[p]
        m["checks"].append({"property":p,"quick_cmd":"python3 check.py "+p,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+p,"evidence_file":"evidence/%s.json"%p,"technique":t,"level":l,"level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"not covered yet")})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
