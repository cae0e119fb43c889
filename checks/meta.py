META = {}
def M(pid, rule, note, assumptions=(), **kw):
    META[pid] = dict(rule=rule, note=note, assumptions=list(assumptions), **kw)

M("P01", "Each case draws a target storage/element type (one sub-check per combination), a source kind and source values (exact dyadics, extremes, denormals, -0) and compares every access path of the result with the source list. Non-trivial: the source values are not all equal (or more than one element is written).",
  "Random generated sources for every constructor/assignment form, storage and element-type conversion; explicit list oracle; ASan/UBSan build.")

M("P02", "Each case draws a source (element list, 1D/2D array, pointer, list, other matrix of any storage/layout/basis/type) or a history of element/row/column/basis writes, and compares every access path ((i,j), get, data() in layout order, basis_element, size queries) with a row-ordered list model. Non-trivial: the source elements are not all equal (writes: more than one element).",
  "Random generated sources for every constructor/assignment form, storage, layout, basis and element conversion; explicit model oracle; ASan/UBSan build.")

M("P03", "Each case is a random history of up to 24 operations (construct, resize, resize_fast, copy/move/self assignment, swap, array/list/expression assignment, container growth, element writes, destruction, negative sizes, injected allocation failures) over three objects, compared after every step with an ideal resizable array; a tracking allocator counts live blocks, checks deallocation sizes and injects failures. Non-trivial: at least 4 steps including a growing resize or a move.",
  "Stateful model-based generation with allocator fault injection, ASan/UBSan; element types are trivially destructible.",
  ["element types are arithmetic (the library leaves new elements of a resize uninitialised)"])

M("P04", "Each case lays two or three external vector/matrix windows (possibly aliasing, with guard gaps) over one exactly-sized heap buffer and runs a random history of reads, writes, compound operations, copies, re-targeting moves, reshapes and direct buffer writes; the whole buffer and every window is compared with a model after each step. Non-trivial: window of more than one element and at least 3 steps (const windows: varied contents).",
  "Stateful model-based generation; explicit buffer model; ASan guards the buffer ends.")

M("P05", "Each case picks one of 20 expression shapes (or a compound operation) over operands of a fixed storage/element/value-category combination, exact element values and scalars, and applies the same generic lambda to the CML operands and, index by index, to plain scalars (value and result type must match). Non-trivial: an operand with differing elements.",
  "Differential oracle: the same C++ expression on scalars; temporaries are overwritten after the node is built; ASan/UBSan.")

M("P06", "Each case picks one of 24 expression shapes (transposes included), a compound operation or nested named nodes over operands of a fixed storage/layout/basis/element/value-category combination and applies the same generic lambda to the CML operands and, per (i,j), to plain scalars. Non-trivial: an operand with differing elements.",
  "Differential oracle: the same C++ expression on scalars; temporaries are overwritten after the node is built; ASan/UBSan.")

M("P07", "Each case draws exact operand elements for one storage/element combination and compares dot, cross, perp_dot, triple_product and outer (free, member, of expressions and of temporaries, node copies/moves) with the defining sums computed in long double, plus symmetry, antisymmetry, bilinearity and orthogonality. Non-trivial: every operand has differing elements.",
  "Explicit exact oracle over all 36 storage pairings and element mixes; temporaries overwritten after node construction; ASan/UBSan.")

M("P08", "Each case draws conforming shapes (inner and outer size 0 included for run-time sizes) and exact element values for one storage/layout/basis/element combination, and compares matrix*matrix, matrix*vector, vector*matrix and products of expressions, temporaries and transposes with the defining sums in long double; then overwrites the operands. Non-trivial: every operand has differing elements.",
  "Explicit exact sum-of-products oracle plus algebraic laws (associativity, distributivity, transpose law) and rounding-bounded checks on arbitrary reals; ASan/UBSan.",
  ["the operands share basis and layout tags (operands mixing them have no result type and do not compile)", "int, float and double elements"])

M("P09", "Each case draws an operation, operand sizes (equal, near, 0 and random) and element values for one storage combination with at least one run-time size; the size requirements of the operation predict whether it must succeed or which documented errors it may throw, and all operands must keep their values on error. Non-trivial: more than two elements are involved.",
  "Explicit predicate oracle of each operation's size requirements over random sizes; external operands are exactly-sized heap arrays under ASan.")

M("P10", "Each case draws matrix or vector elements (extremes and -0 included) and indices for one storage/layout/basis combination and reads every view form (row, col, basis, transpose, subvector; lvalue, const, temporary, expression, nested; stored nodes, copies, owning copies) against an index model, then writes the object and re-reads the live views. Non-trivial: the source elements are not all equal.",
  "Explicit index model; the stack is scribbled between building and reading a stored view; ASan/UBSan.")

M("P11", "Each case draws a square matrix from one of 15 families (random, scaled permutation, unimodular, orthogonal, near orthogonal, row/column scaled, column scaled, sparse, banded or triangular, affine, near identity, symmetric, arrow, small grid, singular) for one storage/layout/basis/element combination and size (1-10 for run-time sizes), and compares determinant, trace and every inverse form with subset-DP / long-double references under error bounds computed from the matrix (permanents, condition numbers).  Non-trivial: the matrix has distinct elements (determinant) or is well enough conditioned for the bound to be below 2% (inverse).",
  "Explicit long-double oracles with a-priori rounding bounds, exact oracles on dyadic matrices, algebraic laws; ASan/UBSan.",
  ["integer matrices have elements small enough that no minor overflows", "above order 4 the determinant is compared only when no pivot is near the library's epsilon threshold"])

M("P12", "Each case draws a square matrix (diagonally dominant, product of random or exact triangular factors, the 15 families of P11 for pivoting, 5 exactly singular families) and right-hand side for one storage/layout/basis/element combination and size (1-14 for run-time sizes); checks L*U (rows permuted by the returned order) against the matrix entry by entry within the backward bound of |L||U|, multipliers at most 1, sign against the order's parity, the residual of every solve form (result, out-parameter, x aliasing b), and the report of singular matrices.  Non-trivial: order above 1 with distinct elements.",
  "Backward-error oracles computed from the returned factors (tight: a few n*eps), exact families, exactly singular families; ASan/UBSan.",
  ["float and double elements (int and long long only for the report of singular matrices: an integer LU truncates)", "pivots away from the library's epsilon threshold"])

M("P13", "Each case draws two related element sequences (equal, one edited, prefix, independent; ties, -0, extremes) for one storage/element pairing and compares all six vector/quaternion relations (== and != for matrices) of objects and expressions with the lexicographic oracle; histories of insertions into std::set, std::unordered_set and std::unordered_map against the same containers over std::vector keys; hashes of equal vectors; printed text under 5 stream states.  Non-trivial: both operands non-empty with distinct values.",
  "Explicit lexicographic / text oracle; containers checked against a model; ASan/UBSan.", ["NaN elements are excluded"])

M("P14", "Each case draws quaternions (exact dyadic components, or well-scaled reals incl. pure, real, nearly real and widely scaled ones) for one order/cross/element combination and compares every linear, compound, product, conjugate, part, norm, inverse, normalize, exp and log form (free, member, in-place, of temporaries and of stored nodes) with a long-double quaternion model, exactly where arithmetic is exact.  Non-trivial: components not all equal.",
  "Explicit quaternion model in long double; exact on dyadic components, rounding-bounded elsewhere; ASan/UBSan.",
  ["operands share order and cross convention (others do not compile)", "log of negative real quaternions is excluded (no unique value)"])

M("P15", "Each case draws a unit axis (cardinal, small-integer, nearly planar, general), an angle (multiples of pi/4, tiny, pi +/- 2^-k, beyond 2 pi) or a rotation (half turn, near half turn, near identity, quarter turns, general) and a previously dirty matrix of one storage/shape/basis/layout combination, and compares every builder and conversion with Rodrigues' formula / the quaternion polynomial in long double: all elements (identity outside the block), action on vectors, quaternion up to sign, recovered axis and angle through the rotation they generate.  Non-trivial: rotation angle not near a multiple of pi (builders), or differing from the identity (conversions).",
  "Explicit long-double oracles with bounds of a few eps, round trips between all three representations; ASan/UBSan.",
  ["axes and quaternions are unit up to rounding", "float and double elements"])

M("P16", "Each case draws one of the 12 Euler orders, three angles (multiples of pi/4, tiny, near pi, large; the second one exactly at and around gimbal lock) or any rotation (half turns, near half turns, near identity, general), and a previously dirty matrix of one storage/shape/basis/layout combination or a quaternion; builders are compared with the product of three world rotations, derivatives with the product rule, and extracted angles through the rotation they rebuild.  Non-trivial: three non-zero angles (builders), every extraction.",
  "Explicit long-double oracles with bounds of a few eps, extraction checked by rebuilding; ASan/UBSan.", ["rotations are orthonormal up to rounding"])

M("P17", "Each case draws a previously dirty matrix of one storage/shape/basis/layout/element combination (4x3, 3x4, square and larger shapes) and exact parameters (scalars, vectors of every storage, expressions) and compares every translation, scale, linear, affine, basis, skew-symmetric and trace function element by element with a basis-vector model, every transform of points and vectors (2D, 3D, 4D, perspective divide) with the defining sums, concatenation with sequential application, and rigid inversion (signed permutations exactly, random orthonormal maps of 1-6 dimensions within rounding) with the transposed rotation and -R't.  Non-trivial: parameters differ / elements not all equal.",
  "Explicit model oracle, exact on dyadic values; algebraic laws (composition, inverse, point difference); too-small run-time shapes and bad indices must be rejected without a change; ASan/UBSan.",
  ["concatenated matrices share basis and layout", "the result of applying a transform has the vector's element type"])

M("P18", "Each case draws an alignment and a reference direction (near parallel down to 2^-24, perpendicular, cardinal, general; any length, or unit when not normalised), one of the six 3D / two 2D axis orders, and a previously dirty output (vectors, matrix of one storage/shape/basis/layout combination, quaternion), or an eye, target and up vector and a handedness, and compares the result with the frame built from the definition in long double (axis i along align, axis j the normalised part of the reference orthogonal to it, right-handed), orthonormality and determinant +1, and the images of eye, target and up.  Non-trivial: directions not parallel within 1e-6 (look-at: eye away from the origin).",
  "Explicit long-double frame oracle with bounds of a few eps divided by the sine between the directions; ASan/UBSan.",
  ["align and reference are not parallel within 1e-8 (1e-3 for float)", "align is unit when normalisation is not requested"])

M("P19", "Each case draws a view volume (asymmetric, off-centre, mirrored, thin and deep bounds; near from 2^-7), a handedness and a z-clip convention, and a previously dirty matrix of one storage/shape/basis/layout/element combination, and compares every orthographic and perspective form (bounds, width/height, horizontal/vertical field of view; generic, LH, RH) with the definition: all elements, and the images of the eight corners; frustum planes of arbitrary exact matrices (raw, normalised, concatenated, near plane alone) with the defining sums; and, for a camera placed by a random rotation and translation, the signed distance of points inside and outside the volume to each of the six planes.  Non-trivial: asymmetric bounds (projections), varied elements (planes).",
  "Explicit long-double oracle with bounds of a few eps scaled by the cancellation of the bounds; end-to-end geometric oracle for planes; ASan/UBSan.",
  ["floating-point bounds and angles (integer arguments are computed in integers by the library)", "left != right, bottom != top, near != far; 0 < near for perspective"])

M("P20", "Each case draws coordinates (radius 0 to 100 and down to 2^-40, any angle, multiples of pi/8, near the poles) or a point (general, exact, on or near an axis, at or near the origin), a vertical axis, a spherical convention and a tolerance (default or explicit), for one vector storage and element/coordinate type combination, in both argument orders; compares the produced point with the defining formulas, the produced coordinates with length and arctangents and the documented ranges, and the round trips in both directions; wrong axes and sizes must be rejected without writing.  Non-trivial: radius above zero / above the tolerance with a height.",
  "Explicit long-double oracle within a few eps, round trips both ways, exceptions; ASan/UBSan.",
  ["float and double elements and coordinates", "within 1e-5 of the tolerance the azimuth is not checked (either answer)"])

M("P21", "Each case draws one to three vectors (exact dyadic, scaled reals over 2^-100..2^100, exactly or nearly parallel, perpendicular, on axes) of one storage/element combination and size 1-9, passed as objects, const objects, expressions or temporaries, and compares squared length, length, every normalize form, both projections, Manhattan distance, perpendicular, signed and unsigned 2D and 3D angles and rotation about an axis with their definitions in long double, plus the defining relations (unit length, projections summing and orthogonal, rotation preserving length and axis component and undone by the opposite angle, signed angle taking the first direction to the second).  Non-trivial: elements not all equal / vectors not parallel or perpendicular.",
  "Explicit long-double definitions within a few eps (exact where arithmetic is), defining relations, rejected sizes; ASan/UBSan.",
  ["vectors whose squares neither overflow nor underflow", "non-zero vectors where the result is a direction", "real elements for lengths, angles and projections (integers: squared length, perfect-square length, Manhattan distance)"])

M("P22", "Each case draws arguments of one scalar type (float, double, long double, int, long, short, unsigned; small values with ties, extremes, infinities, signed zeros, interval ends and their neighbours, angles near 0 and pi) and compares every scalar, index, angle, field-of-view, zoom, length, order-unpacking helper and named constant with its definition (exactly for comparisons, indices and exact arithmetic; within a few eps for transcendental ones), its range and its inverse.  Non-trivial: distinct values / value outside the range or away from the clamped ends.",
  "Explicit definitions and round trips; UBSan.",
  ["NaN excluded", "integers exactly representable in double (as documented), wrap of signed types, map-range and transcendental helpers of floating-point types", "min <= max for clamp, min < max for wrap and map-range"])

M("P23", "Each case draws a seed (small, extreme or random), bounds (dyadic, wide, equal, the whole integer range) or an axis and a cone angle (down to 2^-50, exactly 90 degrees), and a storage/element/engine combination, then draws 100-400 values: every value in the closed range, every integer of a short range and both outer quarters of a long one reached, every element of vectors and matrices rewritten, unit vectors of unit length reaching every orthant, cone vectors within the angle and reaching past half of it on both sides; same seed or engine state again gives the same result; bad angles and sizes rejected.  Non-trivial: a non-empty range and more than one element.",
  "Range, coverage (miss probability below 1e-10 per case) and reproducibility oracles over whole sample sequences; ASan/UBSan.",
  ["floating-point cone angles", "matrices are seeded by std::random_device (not reproducible by design): range and coverage only", "one ulp of rounding allowed for bounds whose difference is inexact"])

M("P24", "Each case draws an object with arbitrary previous contents (NaN, infinities, extremes) of one storage/shape/basis/layout/order/element combination, an operation (zero, fill with a value or with one of its own elements, cardinal, identity; on the object or on a temporary), and compares every element with the documented constant; free generators zero, axis and identity are compared for dimensions 1-8 and shapes 1x1 to 5x5.  Non-trivial: more than one element / non-square.",
  "Exact element-by-element oracle; ASan (external storages are exactly-sized windows).", ["indices of cardinal/axis are within range (unchecked by the library)"])

M("P25", "Each case is a history of 1-8 constructions, assignments, setters, element writes, copies and moves of a quaternion (either order and cross convention, float, double or int) from values, vectors of every storage and expressions, arrays, pointers, initializer lists and quaternions or expressions of either order and another element type, compared after every step with a four-component model through every accessor (w x y z, real/imaginary, indices, data, begin/end); wrong sizes must be rejected without a change; += and -= are compared component by component for either order of the operand.  Non-trivial: some source has neighbouring components that differ.",
  "Model-based histories, exact comparison; ASan/UBSan.", ["double to int conversions stay in range", "arguments that refer to the quaternion being written are excluded"])

M("P26", "Each case draws shared const operands (vectors, matrices, quaternions of one element type, basis, layout, order and cross convention) and a list of 3-18 operations out of about 60 (arithmetic, products, determinants, inverses, LU, comparisons, printing, hashing, rotations, Euler angles, transforms, projections, frusta, conversions, size errors), evaluates each alone, again in reverse order after the others, and from three threads at once in rotated orders, holding results while the next is computed; all results must be bit-identical and no data race may be reported.  Further cases repeat one or two operations with partly equal arguments in any order, and repeat an operation on the same objects after one of their elements changed, against fresh copies.  Writes to different elements, rows or columns of one object from three threads must all arrive.  Non-trivial: at least three operations, two with several result values.",
  "Differential oracle (alone = after others = concurrently), happens-before race detection of every access (ThreadSanitizer build).",
  ["functions drawing from std::rand are excluded (shared state by design)", "three threads; races are found by happens-before analysis of the executed accesses, independent of timing"], sanitizers="thread", quick_mult=2.0)

M("P27", "Each case builds run-time sized vectors and matrices (five pairs of allocators: two counting ones and std::allocator; int, float, double; all bases and layouts; sizes 0-7) and runs one of 40 vector or 48 matrix operations (assignment from every kind of operand, resize, expressions, products, transpose, inverse, determinant, LU, solving, outer products, moves, swaps, copies in containers, transforms).  It is run once to count its allocations, then once per allocation with that allocation failing: std::bad_alloc must come out, every object must be element for element as before, no block may be lost, and repeating the operation must give the first run's result.  Every block must go back to where it came from with its size, and the results' storage must come from the allocator their type names.  Non-trivial: the operation allocates.",
  "Fault injection into every allocation with a before/after model of every object, ledger of the blocks per allocator; ASan and UBSan on all executions.",
  ["failures of the allocation itself only: element types do not throw", "stateless allocators (the library default-constructs them)"])

M("P28", "Each sub-check is a client program written by checks/P28_programs.py from the seed (480 programs, thorough 960): up to 20 operands (vectors, matrices, quaternions, scalars; every storage incl. const external, int/long/float/double, both bases, layouts, orders and cross conventions; fixed or run-time extents) and one expression of 2 to 5 levels over 40 operations (sums, products of every kind, Hadamard, cross, outer, transpose, rows, columns, subvectors, imaginary parts, conjugates, scaling and dividing by literals, variables or scalar sub-expressions, determinants, traces, dots), with lvalue, const and temporary operands and named intermediate nodes or temporaries.  Every sub-expression is checked bottom-up, then the whole expression is assigned, added or subtracted into a destination of a random type and passed to two functions.  Each program runs 40 cases.  Non-trivial: an operand has two distinct elements.",
  "Generated programs against a parallel evaluation in plain loops over long double (exact: magnitudes are bounded while generating) and a type model (element type, compile-time size, basis, layout, temporary); functions of an expression against the same function of its element-by-element copy; ASan and UBSan.",
  ["operands of a product share basis and layout, and an expression of mixed basis or layout is not made a temporary (documented static assertions)", "outer products mixing fixed and run-time sized vectors are left to P07 (no temporary exists)"], generator="P28_programs.py", files=(16, 32), per_file=30, thorough_mult=3.0)

M("P29", "The public operations are compiled in several configurations (compiler, language version, optimisation, NDEBUG, size checks left in or out, odd flags; every translation unit includes the headers it needs in a random order, some with unrelated ones) with the library's namespace renamed, linked into one program and fed the same random operands; results, error kinds and printed text must agree between all configurations, and between static initialisation and main(). Non-trivial: more than one value drawn and more than one result (or a text).",
  "Differential oracle between configurations of the same operation battery, all public headers covered; a program that does not compile or link is a violation.",
  ["IEEE arithmetic (no -ffast-math, no FMA contraction)", "operands conform when the size checks are left out"],
  generator="P29_configs.py", files=(6, 14), per_file=1, sanitizers="none", opt=False, fuzz=False)
