#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a=dict(files=["strictpp/"+f for f in files],mechanism=[dict(name=n,where="strictpp/"+w) for n,w in mech])
    if state: a["state"]=[dict(name="abstract state",meaning=state,where=a["files"][0])]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Resizable 1D arrays behave as mathematical sequences",
 "After any history of constructions, assignments, resizes (old elements preserved on request), insertions and removals (at a position, at either end, counted from the end, or at a list of positions) of single elements or whole arrays, a resizable one-dimensional array holds exactly the sequence that the same history gives on a mathematical sequence. Its reported size, emptiness, checked and unchecked element access, iteration and contiguous storage all agree on that sequence. Results do not depend on element type, alignment choice or which overload (plain, named-argument, front/back) was used.",
 ["histories","inputs"],"every finite history of mutating calls with every argument value, for every element type and alignment",
 "tests apply each operation a few times to fresh arrays; they do not compose operations into histories or vary positions, counts and sizes around zero and the ends",
 ["array_base1D.hpp","derived1D.hpp","ArrayCommon/algorithm.hpp","ArrayCommon/index_helper.hpp"],
 [("resize/insert/remove","array_base1D.hpp ArrayBase1D"),("element access","derived1D.hpp StrictArrayBase1D"),("copyn","ArrayCommon/algorithm.hpp")],
 "sequence of elements owned by each array","return of each public call")
p("C02","Resizable 2D arrays behave as mathematical matrices",
 "After any history of constructions, assignments, resizes and insertions/removals of rows, columns or blocks of them, a resizable two-dimensional array holds exactly the row-major matrix the same history gives mathematically. The number of rows is zero exactly when the number of columns is zero, and the size is always rows times columns. Element, row, linear and iterator access and contiguous storage all agree on that matrix, and positions counted from the end select the same row or column as the equal position counted from the start.",
 ["histories","inputs"],"every finite history of mutating calls with every argument, for every element type and alignment",
 "tests exercise each mutator on a few shapes; the space of shapes x positions x counts x preceding operations is not sampled, nor are degenerate shapes",
 ["array_base2D.hpp","derived2D.hpp","ArrayCommon/algorithm.hpp","ArrayCommon/index_helper.hpp"],
 [("row/column insertion and removal","array_base2D.hpp ArrayBase2D"),("resize","array_base2D.hpp ArrayBase2D::resize"),("shape normalisation","array_base2D.hpp constructors")],
 "shape and row-major contents of each matrix","return of each public call")
p("C03","Invalid requests are rejected and leave every array unchanged",
 "In the default checking mode every request outside an operation's documented domain (index or position out of range, non-positive or excessive count, negative size, mismatched sizes or shapes, a ragged or degenerate list, unordered or duplicate positions, reading an element of an empty array, an invalid slice) is reported as an error and never silently accepted. A rejected structural request (element access, assignment, resize, insertion, removal, slicing, reinterpretation of shape) leaves all arrays exactly as they were and still usable. Requests inside the domain are never rejected.",
 ["histories","inputs"],"every invalid and every valid request in every reachable array state",
 "tests check a handful of rejected calls on fixed arrays and rarely look at the state afterwards or at arguments exactly on the boundary",
 ["array_base1D.hpp","array_base2D.hpp","ArrayCommon/valid.hpp","ArrayCommon/index_helper.hpp","StrictCommon/error.hpp","slice.hpp"],
 [("validity predicates","ArrayCommon/valid.hpp"),("error macros","StrictCommon/error.hpp"),("complement_index_vector","ArrayCommon/index_helper.hpp")],
 "contents of all arrays before and after the rejected call","exception or success of each public call")
p("C04","Arrays own their elements: copies are independent, moves empty the source",
 "Copying an array (by construction, assignment, evaluation or assignment from an expression of arrays) yields the same elements in separate storage: later changes to either are invisible to the other. Moving transfers the elements and leaves a valid, reusable source that is empty if it is resizable and zero-filled if its size is fixed; swapping exchanges contents exactly. Copying, moving or swapping an array with itself changes nothing, and no history leaks, double-frees or reads freed elements.",
 ["histories"],"every history of copies, moves, swaps, self-operations and subsequent mutations over a pool of arrays",
 "aliasing and ownership errors need specific multi-step histories (copy then mutate then destroy, self-move, moved-from reuse) that tests do not enumerate",
 ["array_base1D.hpp","array_base2D.hpp","fixed_array_base1D.hpp","fixed_array_base2D.hpp","derived1D.hpp","derived2D.hpp"],
 [("copy/move/swap","array_base1D.hpp, array_base2D.hpp, fixed_array_base1D.hpp, fixed_array_base2D.hpp"),("eval","derived1D.hpp, derived2D.hpp")],
 "map from array to contents, storage identity","return of each public call, memory sanitizer")
p("C05","1D selections pick exactly the described positions in order",
 "Selecting from a one-dimensional array with a range, a start-count-stride sequence, a named pattern (all, even, odd, reversed, every n-th, first n, last n), an explicit position list or the complement of one yields exactly the described positions in the described order, with positions counted from the end meaning size minus one minus the offset. Selections of selections compose, for owning arrays, views and expressions alike. A selection is accepted exactly when every position it describes exists, and an empty selection is accepted only where the description allows one.",
 ["inputs","programs"],"every selector with every parameter value, on every size, nested to any depth, on every kind of sliceable object",
 "tests use a few selectors on arrays of one or two sizes; boundary strides, negative strides, nested selections and validity limits are not enumerated",
 ["slice.hpp","slicearray_base1D.hpp","ArrayCommon/index_helper.hpp","ArrayCommon/valid.hpp","derived1D.hpp"],
 [("selector conversion","slice.hpp"),("slice_helper","ArrayCommon/index_helper.hpp"),("valid_slice","ArrayCommon/valid.hpp")],
 "base contents and selector parameters","elements read through the selection")
p("C06","2D selections, rows, columns, diagonals, blocks and reshapes are exact",
 "Selecting rows, columns, row/column products, a single row or column, a diagonal with offset, or a rectangular block of a two-dimensional array yields exactly the described elements in row-major order, and a selection that keeps no row or no column is the empty matrix. Viewing an array, or an external buffer, as one- or two-dimensional keeps the row-major order and is accepted only if the element counts match. All of these compose with each other and with one-dimensional selections.",
 ["inputs","programs"],"every selector pair and parameter value on every shape, nested",
 "tests use a few shapes and selectors; non-square shapes, offset diagonals on wide/tall matrices, nested views and degenerate results are not enumerated",
 ["slicearray_base2D.hpp","derived2D.hpp","attach1D.hpp","attach2D.hpp","slice.hpp","ArrayCommon/valid.hpp"],
 [("2D slicing","slicearray_base2D.hpp"),("row/col/diag/block","derived2D.hpp"),("view1D/view2D/attach","attach1D.hpp, attach2D.hpp")],
 "base contents and selector parameters","elements read through the selection")
p("C07","Writing through a selection or view changes exactly the selected elements",
 "Assigning a value, a list, an array or an expression to a mutable selection or view, or updating it in place with an arithmetic or bitwise compound operation, changes precisely the selected elements of the underlying array to the stated results and no other element, and the change is visible through the array and every other view of it. Applied to a whole array, the compound operations update every element with the corresponding operand element. Size or shape mismatches are rejected before anything is written.",
 ["histories","inputs"],"every selection, every kind of write, every operand, followed by reads through every other view",
 "tests check the written elements for a few selections and rarely check that all the other elements stayed the same or observe the write through another view",
 ["derived_base.hpp","slicearray_base1D.hpp","slicearray_base2D.hpp","attach1D.hpp","attach2D.hpp","ArrayCommon/algorithm.hpp"],
 [("compound operations","derived_base.hpp Operands_CRTP"),("slice assignment","slicearray_base1D.hpp, slicearray_base2D.hpp")],
 "contents of the underlying array","all elements of the base after each write")
p("C08","Lazy element-wise expressions equal element-by-element evaluation",
 "Any nesting of element-wise unary, binary, comparison, logical, bitwise and user-supplied operations over arrays, selections, scalars and other expressions has, at every position, exactly the value obtained by applying the scalar operations to the operands' elements at that position, and the operands' common size or shape. Expressions reflect the contents of their operands at the moment they are evaluated, evaluate each element independently of access order, never modify their operands, and remain valid when built from temporary views or temporary sub-expressions. Operands of different size or shape are rejected when the expression is built.",
 ["programs","inputs"],"every expression tree and every operand contents and shape",
 "expression programs form an unbounded family of types; tests instantiate a few dozen fixed trees with fixed data",
 ["Expr/unary.hpp","Expr/binary.hpp","Expr/types.hpp","Expr/functors.hpp","Expr/expr_traits.hpp"],
 [("expression nodes","Expr/types.hpp"),("binary operators","Expr/binary.hpp"),("unary functions","Expr/unary.hpp"),("operand storage by copy or pointer","Expr/types.hpp")],
 "operand contents at evaluation time","elements of the expression and of all operands after evaluation")
p("C09","Structural expressions and generators have their defining contents",
 "Concatenations (1D, and 2D horizontally or vertically), exclusions of positions, rows or columns, transposes, row/column reductions, broadcasts, tensor and matrix-vector products, and generated arrays (constant, identity, unit vector, consecutive sequence, integer range, evenly spaced grid) have the size or shape and, at every position, the value given by their mathematical definition. They compose with all other expressions, stay valid when built from temporary views, and reject operands for which the definition makes no sense. Elements of generated floating sequences are correct to a few roundings at every position: no error accumulates along them.",
 ["programs","inputs"],"every structural expression, every parameter value including degenerate ones, every operand shape, nested in other expressions",
 "tests check one or two shapes per function; degenerate parameters (one-point grids, empty operands, positions at both ends) and compositions are not covered",
 ["Expr/special.hpp","Expr/binary.hpp","Expr/exclude_last.hpp","slice.hpp"],
 [("generate/merge/exclude/reduce","Expr/special.hpp"),("tensor, matrix-vector","Expr/binary.hpp")],
 "operand contents and parameters","elements and shape of the evaluated result")
p("C10","Iterators and index ranges visit every element exactly once in order",
 "Forward, reverse, constant, row, column and index-range traversals of any array, selection or expression visit each element (row, column, index pair) exactly once in the defined order, and dereferencing yields the element the equivalent index yields. Iterator arithmetic, subscripting, difference and ordering obey the random-access laws for every pair of positions from the first element to one past the last of the same array. In checking mode, dereferencing or subscripting outside the elements, using an iterator that points nowhere, comparing or subtracting iterators of different arrays and stepping an index range past its end are rejected; moving an element iterator outside its range is outside the contract.",
 ["histories","inputs"],"every sequence of iterator moves on every array kind and shape",
 "tests walk iterators forward once; interleavings of moves, jumps, reverse traversal and boundary positions form histories that are not enumerated",
 ["iterator.hpp","derived1D.hpp","derived2D.hpp"],
 [("linear iterators","iterator.hpp"),("row/column iterators","iterator.hpp"),("index ranges","iterator.hpp")],
 "iterator position within its array","each move, dereference and comparison")
p("C11","Reductions and queries return the mathematically defined result",
 "Sums, products, means, minima, maxima, inner products, norms, polynomial evaluations and predicates over all/any/none of the elements return the mathematical result over exactly all elements of the given array, selection or expression, wherever that result is exactly representable. The position of a minimum or maximum is the first one in row-major order. Empty arrays give the neutral value (zero, true for universal and false for existential predicates, position -1) or the default the caller supplies.",
 ["inputs","programs"],"every content and size, including empty and single-element, of every array kind",
 "tests check a few fixed arrays; ties, extreme positions, negative-only data, empty inputs and selections as inputs are not enumerated",
 ["array_ops.hpp","ArrayCommon/algorithm.hpp"],
 [("reductions","array_ops.hpp"),("loops","ArrayCommon/algorithm.hpp")],
 "argument contents","returned value or rejection")
p("C12","Sorting, shuffling and range filtering keep exactly the right elements",
 "Sorting a mutable array, selection or view with either standard order or a supplied order leaves a permutation of the same elements in that order, and touches nothing outside the selection; shuffling leaves a permutation. Filtering by an open, closed or arbitrary condition returns exactly the qualifying elements, each once, in their original order, and applying a function to each element calls it once per element in order.",
 ["inputs","programs"],"every content (including duplicates) and every selection or view as target",
 "tests sort a few arrays; sorting through strided or indexed selections relies on iterator arithmetic that has to be right for every position",
 ["array_ops.hpp","iterator.hpp","Util/random.hpp"],
 [("sort","array_ops.hpp"),("range filters","array_ops.hpp"),("random-access iterators","iterator.hpp")],
 "contents of the target and its base","base contents afterwards, returned elements")
p("C13","Strict scalars compute exactly like the built-in type they wrap",
 "Every arithmetic, comparison, logical, bitwise, shift, increment and compound operation and every explicit conversion on a strict scalar has the same value and type as the corresponding operation on the wrapped built-in type whenever that operation is defined. In checking mode integer division or remainder by zero and shifts with a negative operand are reported instead of being executed. Default-constructed scalars are zero, literals (including the extended-precision ones) and named and mathematical constants denote their value, or the nearest one of their type, and named argument types (positions, counts, bounds) hold the value given, rejecting negative ones where a count or position is meant.",
 ["inputs","programs"],"every operand pair of every supported type",
 "tests evaluate a few operand values; boundary operands (extremes, zero divisors, shift counts at the bit width, negative operands) are not systematically covered",
 ["StrictCommon/strict_val.hpp","StrictCommon/strict_val_ops.hpp","StrictCommon/auxiliary_types.hpp","StrictCommon/strict_literals.hpp"],
 [("operators","StrictCommon/strict_val_ops.hpp"),("conversions","StrictCommon/strict_val.hpp")],
 "operand values","result value, type or rejection")
p("C14","Scalar math helpers return the exact mathematical value",
 "Integer, sign and interval helpers (minimum, maximum, sign, absolute value, squares, cubes, powers by squaring, factorial, binomial coefficient, clamps, interval membership, rounding to integers and the classification predicates) return the exact mathematical value whenever it is representable in the result type; roots, inverses and fused multiply-adds are correctly rounded; error-free transformations (sum and product pairs) are exact, compensated powers accurate to twice the working precision, and elementary functions and mathematical constants accurate to a few units in the last place. Arguments outside the mathematical domain (negative factorials or integer exponents, reversed or undefined intervals) are rejected.",
 ["inputs"],"every argument tuple whose result is representable, and every tuple outside the domain",
 "tests check a handful of values; intermediate overflow, boundary and negative arguments are not enumerated",
 ["StrictCommon/strict_math.hpp","StrictCommon/constants.hpp"],
 [("integer helpers","StrictCommon/strict_math.hpp")],
 "argument values","returned value or rejection")
p("C15","Text input is all-or-nothing and output reads back as the same array",
 "Reading an array from a stream or file accepts exactly the well-formed texts (for matrices: rows of equal length, one per line) and yields their numbers in order with the right shape; malformed or ragged text, unreadable files and unparsable numbers are reported and leave the target unchanged. Writing an array, selection or expression prints every element once in order, one line per matrix row, so that reading the text back restores an equal array for integer and for finite double elements in the default format.",
 ["inputs","histories"],"every text and every array content and shape, and every sequence of reads and writes on one stream",
 "tests do not cover input at all and cannot enumerate malformed texts, blank lines, trailing garbage or ragged rows",
 ["array_IO.hpp","StrictCommon/strict_IO.hpp"],
 [("array input","array_IO.hpp"),("array output","array_IO.hpp"),("scalar IO","StrictCommon/strict_IO.hpp")],
 "stream contents, target array","target contents and error after each read; bytes written")
p("C16","Random fills stay within bounds, avoid zero when asked, and terminate",
 "Every random and pseudo-random generator and fill, for every admissible pair of bounds (for floating types: bounds whose distance is representable), terminates and produces only values inside the stated interval (never zero for the non-zero variants), fills exactly the elements of the requested array, selection or size and nothing else, and rejects reversed bounds, negative sizes and, for the non-zero variants, the interval holding only zero, leaving the target unchanged. A lazy random expression reports the bounds it was made with. Within one program, the same pseudo-random request with the same seed gives the same values.",
 ["inputs","schedules"],"every pair of bounds, every seed and start-up state, every target",
 "tests draw a few samples from wide intervals; narrow intervals, intervals touching zero and non-termination are only visible for specific bounds and seeds",
 ["Util/random.hpp","Util/semi_random.hpp","Util/random_traits.hpp"],
 [("random fills","Util/random.hpp"),("portable generator","Util/semi_random.hpp")],
 "generator state, target contents","every produced value; termination")
p("C17","Fixed-size arrays keep their size and otherwise behave like resizable ones",
 "A fixed-size one- or two-dimensional array always has exactly its declared size or shape, starts zero-filled, accepts a construction or assignment exactly when the source has that size or shape, and gives the same element access, selection, assignment, swap and arithmetic results as a resizable array with the same contents. A source of the same type that is moved from is left zero-filled; a source of another type is left as it was.",
 ["histories","inputs"],"every history of constructions, assignments, moves, swaps and element writes, for every declared size, type and alignment",
 "tests exercise one or two sizes per operation without composing them into histories or comparing with resizable arrays",
 ["fixed_array_base1D.hpp","fixed_array_base2D.hpp","derived1D.hpp","derived2D.hpp"],
 [("fixed arrays","fixed_array_base1D.hpp, fixed_array_base2D.hpp")],
 "contents of each fixed array","return of each public call")
p("C18","Programs that would dangle, mutate constants or mix types do not compile",
 "Obtaining an iterator, pointer, selection, view, row, column, diagonal or expression operand that would outlive a temporary owning array is rejected at compile time for every such operation, while the same operation on a named array or on a temporary view is accepted. Writing to elements through a constant array, constant view, selection of a constant or expression is rejected, and arithmetic, assignment or construction that would silently mix different scalar types is rejected for scalars and arrays.",
 ["programs"],"every combination of operation, object kind, constness, value category and element type",
 "unit tests can only contain programs that compile; the rejected half of the interface is invisible to them",
 ["derived1D.hpp","derived2D.hpp","Expr/binary.hpp","Expr/types.hpp","StrictCommon/strict_val.hpp","concepts.hpp","iterator.hpp","attach2D.hpp"],
 [("deleted rvalue overloads","derived1D.hpp, derived2D.hpp"),("type constraints","StrictCommon/strict_val_ops.hpp, concepts.hpp")],
 None,"well-formedness of each program")
p("C19","Constant evaluation gives the same results as run-time evaluation",
 "Every valid history or expression over unaligned resizable arrays, fixed-size arrays, selections, iterators, sorting, reductions and scalars is a constant expression with the same values as at run time, apart from functions built on standard facilities that the language version in use does not evaluate (floating-point classification, roots, powers and transcendental functions in C++20). An invalid request that is rejected at run time is not a constant expression.",
 ["programs","histories"],"every program over the constant-evaluable interface",
 "tests assert a fixed set of constant expressions and do not compare them with a model or with run-time evaluation of the same history",
 ["StrictCommon/config.hpp","array_base1D.hpp","array_base2D.hpp","fixed_array_base1D.hpp","Expr/types.hpp","array_ops.hpp"],
 [("constexpr interface","StrictCommon/config.hpp STRICT_CONSTEXPR")],
 None,"value of each constant expression")
p("C20","Compensated reductions return the exact result where naive ones lose it",
 "The compensated sum, mean, product, inner product, norms and polynomials of every array, selection or expression return the correct rounding of the exact mathematical value up to a correction of second order (a small multiple of n^2 u^2 times the sum of the magnitudes of the n terms, u being the rounding unit), whatever the order of the terms, and the exact value wherever plain evaluation is exact; quotients, roots and powers taken of them add only their own roundings. The block-wise variants stay within a number of roundings that does not grow with the length. Empty arrays give the caller's default or zero; mismatching sizes, negative powers and non-positive norm orders are rejected.",
 ["inputs"],"every sequence of representable terms in every order",
 "tests check one cancellation pattern; dropping or mis-signing the compensation term is visible only for particular orders and magnitudes",
 ["array_stable_ops.hpp"],
 [("compensated sum","array_stable_ops.hpp")],
 "argument contents","returned value")
p("C21","Every build configuration honours the same error contract",
 "With checks on, an invalid request throws the library's exception or aborts with a diagnostic according to the selected error mode, for every checked operation; with checks off, valid requests give identical results and the always-checked operations (checked element access, file and stream input, reinterpretation to a mismatching size) still reject with the same diagnostic and without changing anything; other invalid requests have no meaning in unchecked builds and are not made there. Every check is free of side effects, so that turning the checks off changes no valid program. Switching element-type, alignment, null-discard or extended-precision options never changes the results of valid requests.",
 ["configurations","inputs"],"every combination of configuration macros, every valid and invalid request",
 "the test suite is built in one configuration only (checks on, exceptions)",
 ["StrictCommon/config.hpp","StrictCommon/error.hpp"],
 [("error macros","StrictCommon/error.hpp"),("configuration","StrictCommon/config.hpp")],
 None,"exit, diagnostic or result of each program in each configuration")
p("C22","Tolerance comparisons and error measures follow their definitions",
 "Absolute and relative errors and within-tolerance predicates over scalars and arrays equal their definitions for every pair: the maximum over all corresponding elements of the absolute (relative) difference, compared inclusively with the tolerance; the relative difference is taken with respect to the larger magnitude and not at all where both are within the near-zero bound; relative errors with respect to zero do not exist. The predicates are symmetric, true for identical numbers with any non-negative tolerance, and the same for every operand form (arrays, selections, expressions, lists). Mismatched sizes and negative tolerances are rejected; empty operands give the default.",
 ["inputs"],"every pair of scalars/arrays and every tolerance, including exact boundary equality",
 "tests use random close pairs; boundary equality, zero references and the position of the largest error are not enumerated",
 ["Util/error_tools.hpp"],
 [("error measures","Util/error_tools.hpp")],
 "argument contents","returned value or rejection")
p("C23","The linear-algebra bridge maps the same elements and multiplies correctly",
 "Mapping an array to the external linear-algebra library exposes exactly the array's elements in row-major order with the same shape, shares storage so that writes through either side are seen by the other, and maps of constants are read-only. Products of matrices, including single-row and single-column ones, computed through the bridge equal the mathematical product and reject mismatched inner dimensions.",
 ["inputs","programs"],"every shape and content for which the product is exactly representable",
 "no test covers the bridge; the build only parses its headers",
 ["Eigen/map.hpp","Eigen/matrix_ops.hpp"],
 [("map","Eigen/map.hpp"),("products","Eigen/matrix_ops.hpp")],
 "array contents","elements seen on both sides")
for q in P:
    assert len(q["title"])<=80,q["id"]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
