#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand after registering a check)."""
import json
F = "abstract interpretation: partial evaluation of circuit-building SSA, then an algebraic/polyhedral domain with trace partitioning against IEEE-754"
FN = "Decides the property for all operands, all prover advice, both formats, both front ends and all limb widths; trusts go/ssa, the model of the gnark API and the checker itself."
T = {p: (F, "proof", FN) for p in "C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14".split()}
T["C13"] = (F.replace("against IEEE-754", "of the constraints under the hint functions' values"), "proof", FN)
T["C02"] = ("abstract interpretation: symbolic partial evaluation of the host conversions over classes of bit patterns, compared with the IEEE-754 decoding", "proof",
  "Decides the property for all bit patterns of both formats; trusts go/ssa, the model of math/big and the checker itself.")
G = "abstract interpretation: partial evaluation of the gadget SSA, then interval/algebraic reasoning over arbitrary field elements and arbitrary prover advice"
GN = "Decides the property for the listed lengths and sizes with every limb width and both front ends; trusts go/ssa, the model of the gnark API and the checker itself."
for p in "C15 C16 C17".split():
    T[p] = (G, "proof", GN)
T["C18"] = ("abstract interpretation: partial evaluation of the constraint-building SSA; the extracted constraint multiset is compared structurally with the multiset of the checks issued alone", "other",
  "Decides the property for the enumerated shapes of call sequences (all pairs and triples of check kinds, up to four contexts, long mixes); the unbounded quantifier over sequences is covered by these shapes only.")
T["C19"] = ("interprocedural effect and taint analysis over SSA and the RTA call graph of every circuit-building function", "other",
  "Every function reachable from a Define method, a float or gadget constructor or operation; external calls are judged by an allow list of packages and functions.")
T["C20"] = ("abstract interpretation: the counting loop and the building loop of the lookup tables are both partially evaluated and their query counts and constraint shapes compared", "other",
  "Decides the property for the enumerated sequences of range checks and power-of-two queries; the unbounded quantifier over sequences is covered by these only.")
T["C21"] = ("interprocedural registration, purity and dataflow analysis over SSA, with abstract interpretation of each hint over opaque inputs (every path, loops cut) for totality and output writing", "other",
  "Loops over opaque conditions are followed for at most three iterations; output counts are taken from the call sites.")
T["C24"] = ("path-sensitive typestate analysis: abstract interpretation of the SSA with unknown library results, every error taken both ways, provenance of keys, witnesses and proofs tracked", "other",
  "Loops over unknown conditions are followed for three turns; library behaviour is modelled by signatures and a list of pipeline steps.")
T["C25"] = ("path-sensitive provenance analysis of the SSA with unknown tool output (each result traced to one printed value and its error check), regular-language inclusion for the patterns", "other",
  "The printed form of the tools' output is taken from the patterns' literal text and the H3 command-line format; at most three matches of a repeated pattern are followed.")
T["C36"] = ("path-sensitive provenance analysis of the SSA on unknown strings", "other",
  "strconv.ParseUint and encoding/hex are trusted; the byte decoder is followed for every length up to 300.")
TB = "constant evaluation of the package initialisers (SSA), every table matched with a reference sequence and compared entry by entry"
T["C22"] = (TB + " with the decimals of the H3 C sources", "other", "Covers every float table and constant declared at package level; trusts the H3 sources in the module cache and the checker's 200-bit sine and cosine.")
T["C23"] = (TB + " between the precisions", "other", "Covers every float table and constant declared at package level.")
P = "abstract interpretation: partial evaluation of the routine's SSA into a graph of float operations, decided "
PN = "The float operations are taken as the exact operations (C03-C14 decide their rounding); trusts go/ssa, the model of the gnark API and the checker itself."
for p, t in {
 "C26": "by exact rational interval arithmetic against the sine series on every fold",
 "C27": "by branch-and-bound interval arithmetic against the arctangent series on every piece",
 "C28": "case by case over the signs of the operands against the quadrant rule",
 "C29": "by polynomial identity in the argument for every number of coefficients",
 "C30": "by symbolic case analysis of the twenty-face selection against first-minimum",
 "C31": "by structural and rational identity with the projection formulas per resolution",
 "C32": "by polyhedral path partitioning: on every cell of the plane the reference's decision is the circuit's",
 "C33": "by polyhedral case analysis over all prover advice"}.items():
    T[p] = (P + t, "proof", PN)
T["C34"] = ("lock-step partial evaluation of both variants and structural comparison of the two operation graphs", "other",
  "Every routine declared in both precisions; constants are compared by correct rounding.")
T["C35"] = ("dataflow over the partially evaluated SSA of every circuit routine (results traced back to operands, constants and decided operations) and a query for advice requests", "other",
  "Covers every routine outside the float and gadget packages; a request for advice there is a violation even if something checks it afterwards.")
T["C39"] = ("abstract interpretation of the advice functions on an unknown bit pattern, rational identity over sine and cosine of half the input", "proof",
  "Trusts go/ssa, package math and the round trip of encoding and decoding (C02).")
T["C40"] = ("path-sensitive provenance analysis of the SSA: every recorded column traced to the argument, constraint system or pair of clock readings it comes from", "other",
  "Loops over unknown conditions are followed for three turns; the benchmark loop for two; columns are recognised by the header's names.")
T["C41"] = ("partial evaluation of the helpers on unknown arguments; rational identity over uninterpreted sine, cosine, root and arctangent; symbolic rendering of the lines written", "other",
  "Constants are compared up to the rounding of a double and the order of roundings is not judged; loops over cells are followed for up to three cells.")
NA = {
 "C37": "compares a pipeline of several hundred dependent floating-point roundings with another implementation's, up to its rounding error, for every location; no sound static error bound in reach separates cell-boundary effects from defects. The pieces that can be decided statically are C22-C34.",
 "C38": "zero knowledge is a property of the proof systems' probability distributions (gnark), not decidable from this repository's source.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in ids:
    if p in T:
        t, l, n = T[p]
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p}", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
old = json.load(open("MANIFEST.json"))
old["checks"], old["not_applicable"] = checks, na
json.dump(old, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
