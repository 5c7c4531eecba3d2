#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/btc_validation/median.rs"; D = "src/btc_validation/difficulty_update.rs"; H = "src/btc_validation/header_step.rs"
B = "src/mp/bignat.rs"; P = "src/mp/poly.rs"; N = "src/util/num.rs"; BI = "src/util/bit.rs"; G = "src/util/gadget.rs"
C = "src/util/convert.rs"; L = "src/util/lazy.rs"; PB = "src/btc_validation/prev_block_hash.rs"
def p(id, title, st, over, text, why, files, mech, tech, note, state=None):
    return dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, state=state)
HOST = "runtime monitor on an instrumented constraint system (recorded constraints, reference oracle, bounded hostile prover)"
HN = "Every run of the real code is judged by an independent reference on the recorded constraint system; forged witnesses are sought by a bounded solver and re-checked exactly, so a report is always real, but finding none proves nothing."
props = [
p("C01", "A valid block header advances the chain state to exactly the right next state",
  "For every well-formed chain state and every header that is valid on top of it (link, proof of work, timestamp, difficulty bits), synthesizing the header step succeeds, satisfies every constraint, and outputs exactly the next state: the header's hash, the shifted timestamp window, its target, the start time of the difficulty epoch, the block counter modulo 2016, and the accumulated work floor(maximum target / target). A satisfying run never outputs anything else.",
  ["inputs", "histories"], "all well-formed states, all valid headers, chains of any length across epoch boundaries",
  "no test runs the header step at all; the rules couple hash, compact target, timestamps and counter, so samples of one gadget say nothing about their composition",
  [H, M, D], [("StepCircuit::synthesize for BlockHeader", H), ("compact target decoding, hash packing, work, state output", H)],
  HOST + " against an independent implementation of the header rules", HN),
p("C02", "A header that breaks a consensus rule is never accepted",
  "For every well-formed chain state, a header whose previous-hash field differs from the state's last hash, whose hash exceeds its target, whose timestamp is not above the median of the last eleven, or whose difficulty bits are not the ones the state prescribes, never yields a satisfied constraint system. Outside epoch boundaries the target must be unchanged, and at a boundary it must be the retargeted one truncated to compact form.",
  ["inputs", "histories"], "all well-formed states and all headers violating at least one rule, including off-by-one and one-bit violations",
  "no test presents an invalid header; the violations that matter differ from validity by one bit, one second or one block",
  [H, M, D], [("equality, less-than and retarget constraints of the header step", H), ("less_than/leq", M)],
  HOST + " with rule-by-rule mutation of valid headers", HN),
p("C03", "The header step's public output is bound to one header",
  "Whatever witness a prover chooses, an accepted header step proves a header that is valid on the input state and the output state is that header's: no satisfying assignment pairs an input state with another hash, timestamp, target, epoch start, counter or work than the header it commits to gives. In particular no two distinct hashes or previous-hash fields share an output.",
  ["inputs", "programs"], "all assignments to all internal variables, not only those honest synthesis produces",
  "unit tests only ever build the honest witness, so a missing constraint is invisible to them",
  [H, B, N], [("packing of hash bits into field elements", H), ("every enforce in the header step", H)],
  HOST + ": splicing of independent runs, forced outputs with witness repair, field-wraparound headers", HN),
p("C04", "Every circuit has one shape, with or without a witness",
  "For each gadget and for the whole header step, the synthesized circuit (variables, constraints and coefficients in order) depends only on its parameters, never on witness values, and synthesis completes without any witness, as parameter setup needs. Two syntheses with different witnesses are the same circuit.",
  ["inputs", "configurations"], "all gadgets, all parameter choices, all pairs of witnesses and the absent witness",
  "the tests always synthesize with a witness and never compare two syntheses",
  [H, M, D, B, N, BI, P], [("value closures that may only run when a witness exists", B)],
  "runtime monitor comparing digests of recorded circuits across witnesses and in witness-free mode", "Digest equality over sampled parameters and witness pairs; exploration, not proof."),
p("C05", "Comparisons answer correctly and cannot be forged",
  "For all operands below 2^n, the strict and non-strict comparison gadgets are satisfiable and yield exactly a < b and a <= b, for every supported width n including those above 126 bits. No witness makes the outcome differ.",
  ["inputs", "configurations", "programs"], "all widths, all operand pairs below 2^n, all witnesses",
  "the tests check a handful of 32-bit and 224-bit pairs with honest witnesses only",
  [M], [("less_than", M), ("leq", M)], HOST, HN),
p("C06", "The median check accepts the true median and nothing else",
  "For every odd-sized list of 32-bit timestamps in any order and with any ties, the median gadget is satisfiable and its outcome is true exactly when the candidate is the median, whatever witness is used. The median computed natively is the middle element of the sorted list.",
  ["inputs", "programs"], "all odd-sized lists, all candidates, all witnesses",
  "the tests verify one list with one candidate",
  [M], [("verify_median_timestamp", M), ("compute_median_timestamp", M)], HOST, HN),
p("C07", "The difficulty update scales the target by a bounded timespan, rounding down",
  "For every previous target and timespan strictly between a quarter and four times two weeks, the update yields floor(previous * timespan / 1209600) and verification accepts exactly that target. A timespan outside the bounds, or any other new target, is not accepted under any witness.",
  ["inputs", "programs"], "all targets, timespans and witnesses",
  "the tests check three historical retargets with honest witnesses; unconstrained constants and unlinked copies are invisible to them",
  [D, B], [("verify_difficulty_update, calculate_difficulty_update", D), ("mult_mod", B)], HOST + ", grafted and spliced witnesses", HN),
p("C08", "Equality tests answer exactly whether operands are equal",
  "For all field elements and all equally long limb vectors, the equality gadgets are satisfiable and yield true exactly when the operands are equal. No witness makes the outcome differ.",
  ["inputs", "programs"], "all operand pairs and witnesses",
  "the tests compare a few small constants with honest witnesses",
  [B], [("BigNat::equals, BigNat::is_equal", B)], HOST, HN),
p("C09", "Range checks and decompositions admit exactly the values in range, uniquely",
  "A number passes an n-bit range check or decomposition exactly when it is below 2^n, its bits are its binary digits, and a number split into limbs has exactly its canonical limbs. No witness gives an out-of-range number a decomposition or a number a second one.",
  ["inputs", "configurations", "programs"], "all bit widths up to the field capacity, all values, all witnesses, four fields",
  "the tests try fixed widths with honest witnesses",
  [N, B, BI], [("Num::fits_in_bits, decompose, is_equal", N), ("BigNat::from_num, assert_well_formed, decompose, recompose, enforce_full_bits, enforce_min_bits", B)], HOST, HN),
p("C10", "Carried equality holds exactly for equal integers",
  "Two limb vectors, carried or not and of any lengths, are accepted as equal exactly when the integers they denote are equal, for every word bound the limbs respect and with or without regrouping. Unequal integers are accepted under no witness, including integers that agree modulo the field order.",
  ["inputs", "configurations", "programs"], "all limb widths, lengths, word bounds, values and witnesses, four fields",
  "the tests check a few equal pairs in one field; lost carries and wraparound need particular magnitudes",
  [B], [("equal_when_carried, equal_when_carried_regroup, group_limbs, carry_bits", B)], HOST, HN),
p("C11", "Big-integer products, divisibility, differences and minima are exact",
  "For all operands within their word bounds the product, divisor check, sum, difference and minimum gadgets accept honest witnesses and denote exactly the integer result. A false divisibility claim, a negative difference or a wrong product is accepted under no witness.",
  ["inputs", "configurations", "programs"], "all limb shapes, operands and witnesses",
  "the tests check small quickcheck samples with honest witnesses",
  [B, P], [("mult, divides, sub, add, min", B), ("alloc_product", P)], HOST, HN),
p("C12", "Modular products and reductions give the unique quotient and remainder",
  "For all operands and non-zero moduli, modular multiplication and reduction are satisfiable and return the true quotient and the remainder below the modulus, and a product-modulo assertion holds exactly for the true remainder. No witness yields another quotient or remainder.",
  ["inputs", "configurations", "programs"], "all limb widths, lengths, operands, moduli and witnesses",
  "the tests check a few moduli with honest witnesses and operands of matching size",
  [B], [("mult_mod, red_mod, assert_product_mod, verify_mult", B)], HOST, HN),
p("C13", "A big number's parts always agree through any sequence of operations",
  "After any sequence of operations the reported value, the limb values, the limb wires and the declared bounds of every number describe the same integer: limbs are within the declared maximum word, the value is at least the declared minimum size, and the counts match. Operations on numbers without witness never invent partial values.",
  ["histories", "inputs", "configurations"], "all operation sequences over all representable numbers",
  "each test applies one operation to one freshly allocated number",
  [B], [("BigNatParams max_word/min_bits/n_limbs maintained by each operation", B)],
  "runtime monitor: invariant checked on every object produced by random operation sequences", "Random programs of operations over several fields and limb shapes; exploration.",),
p("C14", "Structural operations denote the right integer",
  "Concatenating, truncating, shifting, scaling, adding, regrouping, padding, decomposing, recomposing and selecting numbers yield exactly the integer arithmetic says, on the value and on the wires alike. This holds for operands produced by earlier operations, not only for fresh ones.",
  ["histories", "inputs", "configurations"], "all operation sequences and operands",
  "tests cover single operations on canonical operands",
  [B], [("concat, truncate_limbs, shift, scale, add, group_limbs, with_n_limbs, recompose, mux", B)],
  "runtime monitor: lockstep big-integer reference model over random operation sequences", "Random programs of operations in lockstep with an independent integer model; exploration."),
p("C15", "Number conversions round-trip and refuse what does not fit",
  "Converting between integers, field elements, machine integers and limb vectors preserves the number in both directions for every value that fits. Values that do not fit, and negative numbers, are refused rather than altered.",
  ["inputs", "configurations"], "all integers, field elements and limb shapes",
  "the tests convert one small constant each way",
  [C, B], [("nat_to_f, f_to_nat, usize_to_f, f_to_usize", C), ("nat_to_limbs, limbs_to_nat", B)],
  "runtime monitor: round-trip and independent-conversion oracles on boundary-heavy inputs", "Differential testing over four fields; exploration."),
p("C16", "Polynomial products and sums are exact and enforced",
  "For all polynomials, including empty and different-length ones, the product and sum gadgets have the schoolbook coefficients on values and wires, and evaluation agrees with them. No witness gives the product other coefficients.",
  ["inputs", "programs"], "all coefficient vectors, lengths and witnesses",
  "the tests multiply two small polynomials with honest witnesses",
  [P], [("alloc_product, sum, evaluate_at", P)], HOST, HN),
p("C17", "Selection, equality assertion and publication of numbers are faithful",
  "Selecting between numbers by a bit, or among many by index bits, yields exactly the chosen number on value and wires; equality assertions accept exactly equal numbers; and publishing a number fixes the public inputs to its limbs. No witness makes any of these differ.",
  ["inputs", "configurations", "programs"], "all operands, selector bits, tree sizes and witnesses",
  "the tests do not exercise selection or publication",
  [G, B, BI], [("Gadget::mux_tree, switch, assert_equal, inputize, as_nums", G), ("BigNat::mux, inputize, equal", B)], HOST, HN),
p("C18", "Bits and bit vectors behave as the boolean sequences they denote",
  "Every bit and bit-vector operation (constants, negation, conjunction, shifts, slicing, joining, pushing, inserting, splitting, reversing) gives values and wires that are exactly the boolean sequence it denotes, after any sequence of operations. Allocated bits can only be zero or one.",
  ["histories", "inputs", "programs"], "all operation sequences over all bit vectors, all witnesses",
  "the tests do not exercise bit vectors directly",
  [BI], [("Bit, Bitvector", BI)], "runtime monitor: lockstep reference model over random operation sequences, plus hostile prover", "Lockstep with a boolean-sequence model over random programs; exploration."),
p("C19", "A lazily computed cell runs its computation at most once and returns its result",
  "A lazy cell yields the result of its computation on every access, runs the computation at most once, and gives the same answer through overlapping borrows. Filling it by hand or forcing it never changes a result already seen.",
  ["histories"], "all sequences of accesses, overlapping borrows included",
  "the tests do not exercise the cell",
  [L], [("LazyCell", L)], "runtime monitor: call-count and identity monitors over random access histories", "Random access histories against a reference automaton; exploration."),
p("C20", "Operands that do not match are refused, not miscomputed",
  "Combining numbers of different limb widths, or numbers that do not fit the requested shape, ends in an error or an unsatisfied circuit and never in an accepted wrong result. The refusal is an error value wherever the operation returns one.",
  ["inputs", "configurations"], "all pairs of limb widths and shapes for every binary operation",
  "tests only combine matching operands",
  [B], [("enforce_limb_width_agreement and its callers", B), ("alloc_from_nat, alloc_from_limbs", B)],
  "runtime monitor on mismatched operands: any accepted run is compared with integer arithmetic", "Enumerated operations with sampled mismatched shapes; exploration."),
p("C21", "The previous-block link accepts exactly the double SHA-256 of the header",
  "For every 80-byte header and 32-byte claim, the link gadget is satisfied exactly when the claim is the double SHA-256 of the header, bit for bit. No witness over the same header and claim changes the verdict.",
  ["inputs", "programs"], "all headers, all claims, including those differing in one bit",
  "its single test checks one header and is not even compiled into the crate",
  [PB], [("check_prev_hash", PB)], HOST + " against an independent SHA-256", HN),
p("C22", "Chains of headers fold and verify end to end, and only valid ones",
  "Folding consecutive valid headers into a recursive proof succeeds, and the proof verifies for exactly the initial state, the number of steps and the final state that the header rules give. Altered outputs, step counts, initial states, or a chain with an invalid header do not verify.",
  ["histories", "inputs"], "all chains of valid headers, all single alterations of a claim",
  "no test folds a header; setup, witness-free synthesis and the step must agree for it to work at all",
  [H], [("StepCircuit for BlockHeader", H)], "runtime monitor over recursive proofs of real and mined header chains, with altered claims", "A few proofs per run (each costs seconds); exploration."),
]
built = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {x["id"] for x in props}
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["title"]
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "./check --build",
  "checks": [{"property": x["id"], "quick_cmd": f"./check {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {x['id']}", "evidence_file": f"evidence/{x['id']}.json", "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in props if x["id"] in built],
  "not_applicable": [{"property": x["id"], "reason": "its check is still being built"} for x in props if x["id"] not in built],
  "notes": "No hooks: the harness crate in /verif/harness uses only the public API of /repo's crate."}
json.dump(man, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
