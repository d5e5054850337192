G_TECH="contracts on the mechanically re-typed f32 source, verification conditions by symbolic execution, discharged by a ring normaliser and SMT (z3, cvc5)"
G_NOTE="The text of src/geometry is extracted on every run with f32 replaced by the symbolic scalar and compiled; every obligation is proved for all real inputs and all paths. Floating-point rounding is outside the proof. Trusted: the extractor, rustc, the symbolic scalar, the ring normaliser, the SMT solvers. Each run also executes the contracts on the compiled f32 crate with sampled inputs."
for i in range(1,7): claims["G0%d"%i]=(G_TECH,G_NOTE,"proof")
V_TECH="contracts, loop invariants and lemmas in Verus on functions extracted mechanically from the source on every run; obligations discharged by Verus (z3)"
V_NOTE="Every function the property depends on is extracted from /repo on every run, joined with its contract and loop invariants (overlay/*.ov) and verified for all inputs, with no bound. f32 is read as a real number (integers are machine integers, overflow included). Trusted: the extractor and its desugaring of iterator loops, Verus, z3, vstd, the listed external bodies and axioms. Each run also searches for a failing input on the compiled crate with an independent oracle; a function that leaves the verifier's reach is reported as a bounded stand-in."
for p in ["M08","G07","Y01","Y02","Y03","Y04","R01","R02","R03","R04","R05","R06"]: claims[p]=(V_TECH,V_NOTE,"proof")

claims["F01"]=claims["F02"]=("contracts, a loop invariant and lemmas in Verus on the compiler's expansion of the serde derives and on impl Fold, extracted on every run; obligations discharged by Verus (z3)",
"Proved for every document and every member sequence: the generated writer and reader agree on every key, the reader accepts exactly the conforming objects and puts each value in its field, from_file returns the reader's result or an error. Assumed by contract: serde_json's tokenizer and writer, serde's implementations for the field types, std::fs. Each run also writes, reads and damages random documents through the compiled crate.","proof")
