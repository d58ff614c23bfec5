"""Writes MANIFEST.json from the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification (%s) checked with TLC; "
NOTE = {}
CLAIMED = {
 "C01": (T % "Arr1" + "TLC transitions replayed into the code, recorded histories validated against it", "model_checking",
         "Every call from every pair of array lengths within the bounds is replayed from the TLC state graph on the real class (ASan/UBSan, several element types and alignments); random longer histories are accepted or rejected by TLC. Trusts the driver's projection and the data independence of structural operations."),
 "C02": (T % "Arr2" + "TLC transitions replayed into the code, recorded histories validated against it", "model_checking",
         "As C01 for pairs of matrices of every shape within the bounds."),
 "C03": (T % "Arr1, Arr2" + "accept/reject outcome and unchanged post-state compared on every TLC transition and on recorded histories", "model_checking",
         "Accept/reject agreement and no-trace for every call, valid or not, in bounds; random beyond. Trusts the driver's projection."),
 "C04": (T % "Arr1, Arr2" + "copy/move/swap/self transitions replayed under AddressSanitizer, histories validated", "model_checking",
         "Ownership is observed through independent contents of all arrays of the pool after every call and by ASan/LSan for double frees and leaks."),
 "C05": (T % "Paths, Select" + "every selection path within bounds enumerated by TLC and walked on the real objects; random larger paths evaluated by TLC", "model_checking",
         "All selectors with all small arguments, composed twice, on owning, constant, attached, fixed and expression operands, intermediate views destroyed before use (ASan). Elements identify their positions."),
 "C06": (T % "Paths, Select" + "every selection path within bounds enumerated by TLC and walked on the real objects; random larger paths evaluated by TLC", "model_checking",
         "As C05 for two-dimensional operands: products, rows, columns, diagonals, blocks and reshapes, composed with each other."),
 "C07": (T % "Writes" + "TLC-enumerated writes replayed, recorded write histories validated by TLC", "model_checking",
         "Every kind of assignment and compound update through every kind of view within bounds, whole underlying contents compared, guards around attached buffers; random histories beyond. Overlapping operands are outside the contract."),
 "C08": (T % "Expr" + "generated expression programs whose every element, size and accept/reject outcome TLC evaluates", "model_checking",
         "Random well-typed expression programs over all operators, element types, operands and selections are compiled against the headers and run on random and boundary data; TLC evaluates every element. Data values bounded so that results are exact; runs whose C++ meaning is undefined are not executed."),
 "C09": (T % "Expr, Grid" + "generated programs over the generators and structural expressions, evaluated by TLC", "model_checking",
         "As C08 for transpose, merge, concatenation, tensor products, matrix products, generators, repetition and friends."),
 "C11": (T % "Expr" + "generated programs ending in reductions, predicates and searches, evaluated by TLC", "model_checking",
         "As C08 with a reduction on top, on every element type, empty and non-empty operands, with caller-supplied defaults, infinities and NaNs by stand-in."),
 "C10": (T % "Iter" + "TLC transitions replayed on real iterators, recorded iterator sessions evaluated by TLC", "model_checking",
         "Every iterator command from every pair of iterator positions within bounds, for element, row and column iterators in all directions; random sessions with three iterators on selections and expressions; index ranges. Moves outside [begin, end] are outside the contract."),
 "C12": (T % "Sorting" + "TLC-enumerated commands with all allowed post-states replayed, recorded histories accepted or rejected by TLC", "model_checking",
         "Sorting with partial orders and shuffling are nondeterministic in the specification; every small content over three values, random contents to 60 (150) elements so that all phases of the standard sort run."),
 "C13": (T % "Big, Types, Scalar" + "TLC-enumerated transitions replayed on real scalars, random register histories evaluated by TLC, literals and constants compiled", "model_checking",
         "The specification computes two's complement and IEEE arithmetic from exact big numbers. All operations on all pairs of boundary values of seven types and bool, random histories beyond; two compilers. Operations the language leaves undefined are never asked for."),
 "C14": (T % "Big, Types, Math" + "exact outcomes or admitted answers of the scalar functions decided by TLC", "model_checking",
         "Exact functions on boundary and random arguments; elementary functions against enclosures computed from series in exact arithmetic (16 units in the last place); compensated powers up to degree 15. Inputs sampled."),
 "C15": (T % "Types, IO" + "all short texts enumerated by TLC and read by the real code, recorded histories of reading and writing accepted or rejected by TLC", "model_checking",
         "The specification parses the texts itself and decides whether a written text shows the wanted values to the promised digits. Every text to length 4-6 (6-9) over small alphabets, random histories on all nine element types. Spacing is free; words readable as several numbers have no meaning."),
 "C16": (T % "Types, Rand" + "requests enumerated by TLC are put to the real generators, TLC decides whether each answer is admitted", "model_checking",
         "Every function family, form, target, type, boundary pair of bounds and some seeds enumerated (a third of it in the quick tier), random bounds and seeds beyond; which numbers are drawn is left open. The entropy of the non-portable generators is supplied by the harness; non-termination is a 20 s limit per request."),
 "C17": (T % "Fixed" + "TLC transitions on pools of fixed and resizable arrays replayed into the code, recorded histories validated", "model_checking",
         "Every call from small pools (two arrays of one type, one of other alignment, one of other shape, one resizable) for ten (quick: six) declared shapes and element types in one and two dimensions including zero and one, and random longer histories; whole pool compared after every call. Other sizes are not instantiated."),
 "C18": (T % "Static" + "TLC enumeration of every operation on every kind of term; the accept/reject verdict of each generated program compared with two C++ compilers", "model_checking",
         "Every operation on every combination of array kind, dimension, constness and value category for four (thorough: all eight) element types, random programs of two to four operations, random pairs of operands, scalars and plain numbers of every pair of types. Changing temporary owners and references to single elements of temporaries are left open."),
 "C19": (T % "Expr, Arr1, Arr2, Fixed, Scalar, Math" + "programs and histories with outcomes evaluated by TLC become constexpr functions whose results are asserted by two compilers, in constant evaluation and at run time", "model_checking",
         "Random well-typed programs and histories with their specified outcomes; a run the specification rejects must not be a constant expression and must throw at run time. A case counts only when clang and g++ agree. Language version C++20; random sampling, bounded sizes."),
 "C20": (T % "Types, Stable" + "the algorithms explored over a small format, answers of the real reductions admitted or refused by TLC in exact arithmetic", "model_checking",
         "The admitted interval around the exact value is computed from exact big numbers. Every sequence to length 3 (4) over nine values around the rounding unit, random cancelling sequences to 640 terms, for float, double, long double (thorough: quadruple), optimised and not, on all operand forms. Second-order slack constants 2 to 9."),
 "C22": (T % "Types, Tol" + "questions about scalars enumerated by TLC and random questions about arrays evaluated by TLC, put to the real functions", "model_checking",
         "All pairs of eleven values around the tolerances with all tolerances for scalars; random arrays of any position of the difference. Relative comparisons of NaN and infinities are not asked for."),
 "C21": (T % "Config, with the vectors of the other specifications" + "programs whose ending per build configuration TLC decides, run in processes built in each configuration", "model_checking",
         "Whole programs over a vector and a matrix, and the enumerated transitions of ten of the other specifications, in eight (thorough: twelve) configurations: throwing or terminating, checks on or off, extended precision, discarded nulls, NDEBUG, stack traces, C++23. Invalid requests that release builds do not check are not made there."),
 "C23": (T % "Bridge" + "TLC transitions and random histories of mapped arrays replayed on the real library and Eigen", "model_checking",
         "Mapping histories on small shapes: writes through either side, products of every pair of shapes including empty and mismatching ones; small integer contents so that products are exact. Matrix-vector products are single-column and single-row matrices. Maps of temporaries are not claimed."),
}
reason = "check under construction"
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="STRICTPP_VERIF_HOOKS", enable="no hooks are needed: the checks compile /repo/strictpp through its public interface", source_commits=[]),
         checks=[dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=t, level=l, level_note=n) for p, (t, l, n) in sorted(CLAIMED.items())],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], reason)) for p in props if p["id"] not in CLAIMED])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
