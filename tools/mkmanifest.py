#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
T = {
 "C01": ("random conversion chains against a position-map model", "Chains of up to several conversions over 12 index/scalar type pairs, all formats, unsorted and duplicate storage, shapes up to the index type's limit; dense-expansion kernels with stale output."),
 "C02": ("invariant check over generated operations", "A battery of every constructor, conversion and operation runs on generated operands; each returned matrix is checked field by field for well-formedness."),
 "C03": ("predicate oracle, idempotence and multiset invariants on generated raw storage", "Predicates compared with their definition; sort stability and canonical sums against the model."),
 "C04": ("differential against model, all operand forms", "Every operator form and named method; exact small-integer values in every scalar type."),
 "C05": ("differential against model plus merge/general metamorphic relation", "All binary kernels with oversized stale output arrays."),
 "C06": ("differential against model product", "All product forms; maxnnz compared with an exact reachability count."),
 "C07": ("differential against model", "All formats' products and the accumulating kernels, single and multi vector."),
 "C08": ("differential against model", "All scalar, negation, scaling forms and mutable value views."),
 "C09": ("involution and metamorphic relations", "Transposes of all formats, of sums and of products."),
 "C10": ("differential against model selection", "Lists with repeats, None, out-of-range indices, non-canonical sources."),
 "C11": ("differential against definitional slicing", "Ranges, index lists, start/stop/step, two-pass column gathering."),
 "C12": ("differential against model", "All k including far outside the matrix, all formats; construction from diagonals."),
 "C13": ("differential against model placement, and rejection oracle", "Stacks, 2x2 and 3x3 grids, also with mismatching blocks."),
 "C14": ("stateful model-based histories", "Random operation histories against a map model, conversions at generated points."),
 "C15": ("differential and round-trip on complex values", "All formats, both precisions, special values."),
 "C16": ("union-find oracle on generated graphs", "Graph families including long paths, stars, unions, duplicates and self-loops."),
 "C17": ("reachability oracle on generated graphs", "Graph families with long cycles/paths, nested components, duplicates and self-loops; up to the index limit."),
 "C18": ("trace invariant plus reachability oracle", "Every listed node is checked to be an admissible next step of a depth-first traversal."),
 "C19": ("union-find oracle on generated symmetric graphs", "Method and kernel, narrow flag types."),
 "C20": ("generated valid/invalid arguments, acceptance oracle", "Array lengths and operand shapes perturbed by generated amounts; both directions of the decision."),
 "C21": ("parse-back of printed text", "Listings and tables parsed and compared with the stored entries; values over the whole exponent range."),
 "C22": ("differential against model", "Every position of generated matrices, all storage orders and formats."),
 "C23": ("differential against definitional filter", "Offsets of every size including the index type's extremes."),
 "C24": ("stateful model-based histories", "Random programs over a pool of matrices compared with dense results at every step, plus re-storing of operands."),
 "C25": ("differential between index types", "The same battery with a narrow and a wide index type, at and below the narrow type's limits."),
 "C26": ("round-trip and multiset oracle with special values", "NaN, infinities, subnormals, negative zeros."),
 "C27": ("differential against model on degenerate shapes", "The battery on generated matrices with zero rows, zero columns or no entries."),
 "C28": ("residual and known-spectrum oracle on generated matrices", "Matrices with prescribed spectra, residual checks, argument rejection."),
 "C29": ("stateful model-based histories of growth", "Random push/extend/copy/transpose histories against a list of entries, conversions at generated points."),
 "C30": ("differential between scalar types", "The operation battery on the same whole numbers in pairs of scalar types, up to the exact range of the narrower one."),
 "C31": ("measured cost against a linear bound on generated large operands", "Thread processor time and peak heap growth of every operation; margin about 20 in time and 5 in memory over the worst case measured, so a slowdown by a constant factor is not reported."),
 "C32": ("metamorphic relations between results", "Algebraic laws over tuples of matrices with exact values, all formats and operator forms."),
 "C33": ("metamorphic: repeated, interleaved and concurrent runs must agree", "Batteries of operations rerun after others and on several threads; schedules are sampled by the operating system, not enumerated."),
 "C34": ("metamorphic: the same data in exact and in longer arrays", "Every array-level kernel on exact arrays and on the same data at the front of longer ones with arbitrary content behind, results compared element by element."),
}
na = {}
checks = []
for p in props:
    i = p["id"]
    if i in na: continue
    src = f"{V}/harness/src/props/{i.lower()}.rs" if i != "C28" else f"{V}/harness-eigs/src/main.rs"
    if not os.path.exists(src):
        na[i] = "check under construction"
        continue
    t, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": "property-based testing: " + t, "level": "exploration", "level_note": note})
m = {"version": 1,
     "setup_cmd": "cd harness && cargo build --release --offline && cd ../harness-eigs && cargo build --release --offline",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", "not applicable:", list(na))
