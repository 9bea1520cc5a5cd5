#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of LLVM IR with global value numbering"
NOTE_H = ("Holds for every message length (no bound on the number of blocks) on the compiled headers; value numbers that are equal only under random interpretation carry a negligible error probability. "
          "Trusts the reference definitions in spec/, clang's front end and the analyser.")
CHECKS = {
 **{h: (AI + " against reference definitions", "other", NOTE_H) for h in ("H01", "H02", "H03", "H05", "H06", "H07")},
 "H04": (AI + " against reference definitions", "other", NOTE_H + " Name and customization lengths and tuple shapes are enumerated; element and digest lengths of TupleHash are symbolic."),
 "R01": (AI + ", heap-graph comparison with a new hasher", "other", "Covers reset from every remainder class with any number of preceding blocks for sampled fill levels (all of them in thorough), for every hasher type; cSHAKE and TupleHash for several parameterisations, TupleHash from bounded histories."),
 "S01": (AI + ", ownership and alias analysis by heap-graph isomorphism", "other", "Self-move and copying from a moved-from hasher are outside the guarantee. TupleHash from bounded histories."),
 "O01": (AI + " of every output over independent unknown digest values", "other", "Holds for every digest value of every finalized state shape."),
 "A01": (AI + " of every input overload against the byte-span one", "other", "Span lengths are symbolic; array sizes and element types are a fixed set around the block size."),
 "Q01": (AI + " of the comparison operators", "other", "For SHAKE and cSHAKE outputs longer than the rate the digest is determined by the compared state because Keccak-f is a permutation."),
 "M01": (AI + " with bounds, lifetime, initialisation and overflow checks on every interpreted operation", "other", "Covers everything reached from the analysed entry points of every hasher type on the 64-bit little-endian build; allocation failure is out of scope."),
 "C01": (AI + " of every mode's compilation against the same reference definitions", "other", "Every message length in C++14, C++17 and C++20, with and without NDEBUG, with the bundled and the standard span and after all other headers in both orders; a mode is at fault only when another one is right."),
 "T01": ("effect analysis: writes of every interpreted operation by storage class", "other", "Covers every operation of every hasher type from every analysed state; thread-safe initialisation of constant tables is allowed, thread-local objects are allowed when what they hold cannot change another hasher's result (interleaved with a second hasher in every sampled state)."),
 "K01": ("compile-time witnesses: static_assert over constexpr functions, both compilers", "other", "Constant-evaluates construction, pieces, copy, reset, finalize and outputs for lengths around every padding boundary; HAS-160 adding is not declared constexpr. GCC 13 cannot compare the address of a namespace-scope temporary with null in C++17, so witnesses are evaluated inside constexpr functions."),
 "X01": ("compile-fail witnesses, object symbol classification, macro and declaration scan of preprocessed text", "other", "Both compilers, C++14/17/20; every header alone with all members used, and all headers together with each of them first and the rest in both directions (every ordered pair in thorough). Names of the bundled GSL are outside the guarantee."),
 "P01": (AI + " of the intermediate representation of other targets, alignment tracking", "other", "64-bit big-endian, 32-bit little-endian and 32-bit big-endian targets in quick, six more in thorough, every message length (totals beyond the 32-bit address space by an inductive step over calls). This machine's C++ library headers stand in for the target's."),
 "I01": (AI + ", inductive invariant over add calls", "other", "Holds for every sequence of adds to any hasher; state bytes equal only under random interpretation carry a negligible error probability. The quick check covers every (fill, piece length mod block) pair from a generic state and boundary pairs from the first block; thorough adds all pairs with unboundedly many extra blocks."),
 "D01": ("abstract interpretation of LLVM IR of the program: string-class and interval analysis of the arguments, typestate of hasher and output", "other", "Every documented name in every letter case the program accepts, every other name up to 24 (40 in thorough) characters, every argument count, length texts of every value; hashers are replaced by recorders and the C++ library by a stream model. Library calls outside the model leave paths undecided."),
 "D02": ("abstract interpretation of LLVM IR of the program: typestate of the input stream, segment domain for the bytes read", "other", "Every file size relative to the chunk (the read loop reaches a fixpoint), failure of open and of any read; the TupleHash whole-file reader is covered up to 2100 reads (4200 in thorough). Hashers are replaced by recorders and the C++ library by a stream model."),
}
NA = {
 "N01": "Collision and preimage resistance and unforgeability are computational-hardness claims about the algorithms; no property of the program's structure decides them.",
 "N02": "Throughput is a matter of the machine and compiler optimiser, not of the program's semantics; static analysis gives no sound bound on cycles here.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA: NA[p] = "Check under construction; not claimed yet."
m = dict(version=1, setup_cmd="make -C engine OUT=../build -j8",
 checks=[dict(property=p, quick_cmd="python3 lib/check.py %s quick" % p, thorough_cmd="python3 lib/check.py %s thorough" % p, technique=CHECKS[p][0], level=CHECKS[p][1], level_note=CHECKS[p][2]) for p in props if p in CHECKS],
 not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
