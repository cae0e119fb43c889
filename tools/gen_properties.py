import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
IC=["inputs","configurations"]
p("P01","Vectors hold exactly the elements they are given, in every storage",
"A vector built or assigned from element lists, arrays, pointers, initializer lists, another vector (of any storage or convertible element type), or a shorter vector plus trailing elements holds exactly those elements in that order, each converted to the vector's element type. Size, indexing, get, data, iteration, structured access, put, set, fill-style writes, copies and moves all agree on the same elements; writing element i changes element i only, and a copy of an owning vector is independent of its source.",
IC,"all element values, element types (int, float, double and mixes), sizes, and the storages fixed, dynamic, external fixed, external dynamic (mutable and const)",
"Tests use one literal vector such as (1,2,3) per constructor and mostly double; they cannot cover every value, size, source storage and element conversion.",
["cml/vector/fixed_compiled.tpp","cml/vector/dynamic_allocated.tpp","cml/vector/fixed_external.tpp","cml/vector/dynamic_external.tpp","cml/vector/writable_vector.tpp","cml/vector/readable_vector.tpp"],
[("assign / assign_elements","cml/vector/writable_vector.tpp"),("check_or_resize","cml/vector/detail/check_or_resize.h"),("copy/move special members","cml/vector/dynamic_allocated.tpp")],
["vector::operator[]","vector::get/put/set","vector::data/begin/end","vector::size"])
p("P02","Matrices hold exactly the elements they are given, for every layout and basis",
"A matrix built or assigned from element lists, 1D or 2D arrays, pointers, initializer lists or another matrix (of any storage, layout, basis or convertible element type) holds exactly those elements at the documented positions; element lists and pointers are read in row order, or storage order where so documented. Size queries, (i,j) access, get/put, data(), row/column/basis setters and getters, copies and moves all agree on the same elements, data() exposes them in the declared row- or column-major order, and writing one element, row, column or basis vector changes nothing else.",
IC,"all element values, shapes (square and not), the storages fixed, dynamic, external fixed, external dynamic, both layouts and both basis orientations, and element type mixes",
"Tests instantiate a handful of 2x2..4x4 matrices with literal contents, mostly row-major column-basis doubles; non-square column-major combinations and cross-configuration assignment are hardly touched.",
["cml/matrix/fixed_compiled.tpp","cml/matrix/dynamic_allocated.tpp","cml/matrix/fixed_external.tpp","cml/matrix/dynamic_external.tpp","cml/matrix/writable_matrix.tpp","cml/matrix/readable_matrix.tpp","cml/matrix/detail/copy.h"],
[("layout-dispatched get/put","cml/matrix/detail/get.h"),("assign overloads","cml/matrix/writable_matrix.tpp"),("copy/apply loops","cml/matrix/detail/copy.h, cml/matrix/detail/apply.h")],
["matrix::operator()(i,j)","matrix::data","matrix::row/col","set_row/set_col/set_basis_vector/set_basis_element"])
p("P03","Dynamic vectors and matrices stay valid through any history of operations",
"Through any sequence of construction, resize, fast resize, assignment from equal or different sizes, copy, move, self-assignment and destruction, a dynamic vector or matrix always has the size the sequence dictates and holds exactly the elements an ideal resizable array would hold (a resize keeps the leading linear elements, a moved-to object holds the source's elements, a default or move-constructed-from object is empty and any moved-from object is valid and reusable). No history reads or writes outside the allocation, leaks it, frees it twice, or lets two owning objects share storage, and a negative size (std::invalid_argument) or a failed allocation is reported by its exception leaving the object as it was.",
["histories","configurations"],"all operation sequences over a pool of dynamic vectors/matrices with sizes from 0 to tens, all layouts and bases, int/float/double elements",
"Tests perform at most one resize or move per object; ownership errors need particular sequences (resize to the same size, move onto a non-empty object, self-assignment, zero size) and are invisible without memory checking.",
["cml/vector/dynamic_allocated.tpp","cml/matrix/dynamic_allocated.tpp","cml/vector/detail/resize.h","cml/matrix/detail/resize.h","cml/matrix/detail/check_or_resize.h"],
[("resize / resize_fast / destruct","cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"),("move assignment","cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp")],
["size/rows/cols","element access","AddressSanitizer/allocator accounting"],[("m_data,m_size / m_rows,m_cols","owned allocation and its logical shape","cml/vector/dynamic_allocated.h, cml/matrix/dynamic_allocated.h")])
p("P04","External vectors and matrices are exact windows on user memory",
"An external vector or matrix reads and writes precisely the wrapped elements of the user's array (in the declared layout): every modification through it is visible in the array, every modification of the array is visible through it, and no operation touches memory before or after the wrapped range. Copy-constructing a mutable wrapper aliases the same memory, copy-assigning copies elements into the wrapped memory, move-assigning re-targets the wrapper, and temporaries created from external operands own their elements.",
["inputs","histories","configurations"],"all array contents and modification sequences, fixed and run-time sizes, both layouts and bases, 1D and 2D arrays, mutable and const element types",
"Tests check that a wrapped literal array reads back; aliasing, guard regions, re-targeting and write-through of every mutating operation are not explored.",
["cml/vector/fixed_external.tpp","cml/vector/dynamic_external.tpp","cml/vector/fixed_const_external.tpp","cml/vector/dynamic_const_external.tpp","cml/matrix/fixed_external.tpp","cml/matrix/dynamic_external.tpp","cml/vector/temporary.h","cml/matrix/temporary.h"],
[("pointer wrapping and assignment","cml/vector/*_external.tpp, cml/matrix/*_external.tpp"),("temporary type deduction","cml/vector/temporary.h, cml/matrix/temporary.h")],
["the user's array contents","element access through the wrapper"])
p("P05","Vector expressions equal element-by-element arithmetic",
"Any expression built from vectors of equal length with +, -, unary +/-, scalar * and /, and the element-wise (Hadamard) product, of any nesting, operand storage, element type mix and value category (lvalue, const, temporary), evaluates at every index to the same arithmetic applied to the operands' elements in the usual C++ promoted type. The compound forms +=, -=, *=, /=, minimize and maximize modify the left operand to the same values and leave the other operands unchanged, also when the scalar is an element of the vector being modified.",
["inputs","programs","configurations"],"all element values whose results are representable, all expression trees, element type mixes (int/float/double), storages, and lvalue/temporary operand combinations",
"Each node type is tested in isolation with one operand pair; nested trees, temporaries captured inside nodes, type promotion and mixed storages are combinatorial.",
["cml/vector/binary_ops.h","cml/vector/scalar_ops.h","cml/vector/unary_ops.h","cml/vector/binary_node.tpp","cml/vector/scalar_node.tpp","cml/vector/unary_node.tpp","cml/vector/writable_vector.tpp","cml/vector/hadamard_product.h","cml/scalar/binary_ops.h","cml/scalar/unary_ops.h"],
[("expression nodes","cml/vector/binary_node.tpp, scalar_node.tpp, unary_node.tpp"),("promotion","cml/vector/promotion.h, cml/scalar/promotion.h"),("compound assignment","cml/vector/writable_vector.tpp")],
["element access of the expression and of a vector assigned from it","value_type of the expression"])
p("P06","Matrix expressions equal element-by-element arithmetic",
"Any expression built from equal-shape matrices with +, -, unary +/-, scalar * and /, transpose and the element-wise (Hadamard) product, of any nesting, storage, layout, basis, element type mix and value category, evaluates at every (i,j) to the same arithmetic applied to the operands' elements in the usual C++ promoted type. The compound forms +=, -=, *=, /= and in-place transpose modify the left operand to the same values and leave the other operands unchanged, also when the scalar is an element of the matrix being modified.",
["inputs","programs","configurations"],"all element values whose results are representable, expression trees, shapes, element type mixes, storages, layouts, bases, and lvalue/temporary operand combinations",
"Each node type is tested in isolation with one literal operand pair and little variation of layout/basis; the product of configurations and nestings is combinatorial.",
["cml/matrix/binary_ops.h","cml/matrix/scalar_ops.h","cml/matrix/unary_ops.h","cml/matrix/transpose_ops.h","cml/matrix/binary_node.tpp","cml/matrix/scalar_node.tpp","cml/matrix/unary_node.tpp","cml/matrix/writable_matrix.tpp","cml/matrix/hadamard_product.h","cml/matrix/detail/apply.h"],
[("expression nodes","cml/matrix/binary_node.tpp, scalar_node.tpp, unary_node.tpp, transpose_node.tpp"),("promotion","cml/matrix/promotion.h, cml/storage/promotion.h"),("layout-ordered apply","cml/matrix/detail/apply.h")],
["element access of the expression and of a matrix assigned from it"])
p("P07","Vector products follow their algebraic definitions",
"For every operand pair of matching length (or length 2/3 where required), dot, cross, perp-dot, scalar triple product and outer product return exactly the defining sums of products of the operands' elements, for any mix of element types, storages and temporaries. Hence dot is symmetric and bilinear, cross is antisymmetric and orthogonal to both operands, the triple product equals the determinant of its operands, and outer(a,b)(i,j) = a[i]*b[j].",
IC,"all operand values with representable results, element type mixes, fixed/dynamic/external storages, lvalues and temporaries, lengths 1..8",
"Tests evaluate one or two literal operand pairs per product and never combine temporaries of run-time size.",
["cml/vector/dot.tpp","cml/vector/cross_node.tpp","cml/vector/cross_ops.h","cml/vector/perp_dot.tpp","cml/vector/triple_product.tpp","cml/vector/outer_product_node.tpp","cml/vector/outer_product_ops.h"],
[("dot loop / cross and outer nodes","cml/vector/dot.tpp, cml/vector/cross_node.tpp, cml/vector/outer_product_node.tpp")],
["dot, cross, perp_dot, triple_product, outer_product"])
p("P08","Matrix products are the row-by-column sums for every configuration",
"For every conforming pair, matrix*matrix has the outer shape and element (i,j) equal to the sum over k of left(i,k)*right(k,j); matrix*vector and vector*matrix equal the corresponding row or column sums; each result is an independent value computed from the operands' values at call time. This holds for any storage, element type mix and value category of operands sharing basis and layout (in any of the four combinations), so products associate, distribute over +, and satisfy transpose(A*B) = transpose(B)*transpose(A).",
IC,"all element values with representable results, all conforming shapes, storages, element type mixes and lvalue/temporary operands, in each layout and basis",
"Tests multiply a few literal matrices, mostly square and same-typed; non-square, mixed-layout, run-time sized and mixed-type products are barely sampled.",
["cml/matrix/matrix_product.tpp","cml/matrix/vector_product.tpp","cml/matrix/promotion.h","cml/vector/promotion.h"],
[("product loops","cml/matrix/matrix_product.tpp, cml/matrix/vector_product.tpp"),("result type promotion","cml/matrix/promotion.h, cml/storage/promotion.h")],
["operator* results: shape, elements, element type"])
p("P09","Run-time size mismatches are always rejected, never silently computed",
"Whenever at least one operand has run-time size, combining operands of incompatible size (element-wise vector and matrix expressions, compound assignment, assignment into non-resizable objects, dot/cross/perp-dot/triple/outer products, matrix products, square-only and minimum-size operations) throws the documented size error (a std::runtime_error) instead of returning a value, and never touches memory outside the operands. Conforming operands never throw, and for assignments and compound assignments the left operand keeps its former value when the error is raised.",
["inputs","configurations"],"all pairs of run-time sizes (including 0, larger and smaller on either side), all operations taking two operands or requiring a shape, all storages with a run-time size",
"Tests check one mismatch per operation in one direction; a check that tests only 'left larger' or that is skipped for temporaries passes them.",
["cml/vector/size_checking.tpp","cml/matrix/size_checking.tpp","cml/mathlib/matrix/size_checking.tpp","cml/quaternion/size_checking.h"],
[("check_same_size / check_size / check_minimum_size / check_square / check_inner","cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp, cml/mathlib/matrix/size_checking.tpp")],
["exception type thrown","operand contents afterwards"])
p("P10","Transpose, row, column, basis and subvector views expose the right elements",
"transpose(M)(i,j) is M(j,i); row i, column j and basis vector i of M (row i for a row basis, column i for a column basis) and subvector(v,i) (v without element i) read exactly the corresponding elements, in order, for lvalues, const objects, temporaries and expressions. The result of copying such a view is an owning object with those elements, and views of a live object reflect later changes to it.",
IC,"all element values, shapes, indices, storages, layouts, bases and value categories",
"Tests read one index of one literal matrix per view; index arithmetic on non-square, column-major and row-basis matrices and the lifetime of views on temporaries are not covered.",
["cml/matrix/transpose_node.tpp","cml/matrix/row_node.tpp","cml/matrix/col_node.tpp","cml/matrix/basis_node.tpp","cml/vector/subvector_node.tpp","cml/matrix/readable_matrix.tpp"],
[("view nodes","cml/matrix/*_node.tpp, cml/vector/subvector_node.tpp")],
["element access of the views and of copies made from them"])
p("P11","Determinant, inverse and trace are correct for every non-singular matrix",
"For every square matrix, determinant(M) equals the alternating sum of permutation products (within rounding), is multiplicative, invariant under transpose, and trace(M) is the sum of diagonal elements. For every well-conditioned square matrix of any size, storage, layout and basis, inverse(M) and the in-place inversion give a matrix whose products with M on both sides are the identity within rounding proportional to the condition number.",
IC,"all square matrices from 1x1 to 8x8 (closed forms for 2..4, pivoting beyond, where no pivot vanishes against the library's absolute threshold), including permutation-like, diagonal with tiny or negative entries and badly ordered pivots; all storages, layouts and bases",
"Tests invert a single hand-picked matrix per size; pivoting paths depend on the relative magnitude and position of elements.",
["cml/matrix/detail/determinant.tpp","cml/matrix/determinant.tpp","cml/matrix/detail/inverse.h","cml/matrix/inverse.h","cml/matrix/trace.tpp"],
[("closed forms 2x2..4x4","cml/matrix/detail/determinant.tpp, cml/matrix/detail/inverse.h"),("pivoting elimination","cml/matrix/detail/inverse.h, cml/matrix/detail/lu.tpp")],
["determinant, inverse, matrix::inverse, trace, M*inverse(M)"])
p("P12","LU factorisation reproduces the matrix and LU solving solves the system",
"For every square matrix whose pivots are not vanishing, the packed unpivoted LU result splits into unit lower and upper triangular factors whose product is the matrix, and the pivoted LU result does so up to the returned row order, with the returned sign equal to the parity of that order. Solving with an LU factorisation returns x with A*x = b within rounding, and a singular matrix is reported as such rather than solved.",
IC,"all well-conditioned square matrices 1x1..8x8 of any storage, layout and basis, all right-hand sides, plus exactly singular matrices",
"Tests factor one or two literal 3x3 matrices; the factorisation order, pivot bookkeeping and triangular solves depend on values and size.",
["cml/matrix/lu.tpp","cml/matrix/lu.h","cml/matrix/detail/lu.tpp","cml/matrix/detail/lu.h"],
[("lu_inplace / lu_pivot_inplace / lu_solve","cml/matrix/detail/lu.tpp, cml/matrix/lu.tpp")],
["lu, lu_pivot, lu_solve results"])
p("P13","Comparison is a lexicographic total order; hashing and printing respect it",
"For vectors, quaternions and matrices of any storage and element type, == holds exactly when sizes and all corresponding elements are equal, and the six vector and quaternion relations form the lexicographic order (a strict total order on finite values, a shorter prefix ordering first), each consistent with the others. Equal vectors hash equally and can be found in hashed containers, and printing lists every element exactly once, in index order and in the documented format.",
IC,"all finite element values, sizes (also different sizes), storages, and mixed element types; sets of vectors inserted in hash containers",
"Tests compare two literals per relation; transitivity, trichotomy and agreement of six operators are universally quantified.",
["cml/vector/comparison.tpp","cml/matrix/comparison.tpp","cml/quaternion/comparison.tpp","cml/util/vector_hash.h","cml/common/hash.h","cml/util/vector_print.tpp","cml/util/matrix_print.tpp","cml/util/quaternion_print.tpp"],
[("lexicographic loops","cml/vector/comparison.tpp, cml/quaternion/comparison.tpp"),("hash combination","cml/util/vector_hash.h, cml/common/hash.h")],
["relational operators, std::hash, operator<<"])
p("P14","Quaternions obey quaternion algebra in every ordering and cross convention",
"For any component order and product convention shared by the operands, any element type mix and value category: sums, differences, scalar operations and their compound forms act component-wise; the product is the Hamilton product (operands swapped for the negative convention); conjugate, imaginary and real parts, dot, length, norm, inverse, normalize, identity and the components w/x/y/z match their definitions. Hence multiplication is associative and bilinear, |pq| = |p||q|, q*inverse(q) = 1, conjugate(pq) = conjugate(q)conjugate(p), and exp and log are mutually inverse on their domain, real quaternions included.",
["inputs","programs","configurations"],"all finite quaternions (non-zero for inverse/normalize), both component orders, both cross conventions, float/double and mixes, expressions over temporaries",
"Tests evaluate each operation on one literal quaternion in the default order; signs and component positions for the other order/convention combinations are scarcely exercised.",
["cml/quaternion/product.tpp","cml/quaternion/writable_quaternion.tpp","cml/quaternion/readable_quaternion.tpp","cml/quaternion/conjugate_node.tpp","cml/quaternion/inverse_node.tpp","cml/quaternion/imaginary_node.tpp","cml/quaternion/dot.tpp","cml/quaternion/functions.tpp","cml/quaternion/binary_node.tpp","cml/quaternion/scalar_node.tpp","cml/quaternion/unary_node.tpp"],
[("product","cml/quaternion/product.tpp"),("in-place conjugate/inverse/log/exp","cml/quaternion/writable_quaternion.tpp"),("order tags","cml/quaternion/order_tags.h")],
["component accessors w/x/y/z of results"])
p("P15","Quaternion, matrix and axis-angle rotations describe the same rotation",
"For every unit axis, angle, and unit quaternion, the axis-angle, world-axis, 2D and quaternion rotation builders produce proper orthonormal rotations that turn any vector about the axis by the angle in the right-handed sense, in row- and column-basis matrices alike, and converting between matrix, quaternion and axis-angle preserves the rotation (a quaternion up to sign). A product of quaternions or matrices describes the composition of their rotations.",
IC,"all axes, angles (including 0, tiny, near pi, beyond 2 pi), unit quaternions in every largest-component region, both bases/layouts, 2D/3D/4D matrices, both quaternion orders and conventions",
"Tests use a few axis-aligned literal angles; branch selection on the largest quaternion component or near-pi angles depends on the input region.",
["cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/quaternion/basis.tpp"],
[("builders and extractors","cml/mathlib/matrix/rotation.tpp, cml/mathlib/quaternion/rotation.tpp")],
["the action of the produced rotation on vectors"])
p("P16","Euler-angle rotations apply the named axes in order and can be recovered",
"For all 12 Euler orders, the matrix and quaternion built from three angles equal the composition of the three named axis rotations in that order, and extracting Euler angles from any rotation (matrix or quaternion) in any order yields angles that rebuild the same rotation, at gimbal lock included. The Euler derivative matrices equal the derivative of the rotation with respect to the requested angle, and repeated-axis derivative requests are rejected.",
IC,"all angle triples, all 12 orders, both bases/layouts, 3x3 and 4x4 matrices, both quaternion orders and conventions, any rotation including at and near gimbal lock",
"Tests use one or two literal triples and few of the orders; sign and index errors confined to odd or repeated orders survive them.",
["cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/euler_order.h"],
[("order unpacking","cml/mathlib/euler_order.h"),("matrix_rotation_euler, matrix_to_euler, matrix_rotation_euler_derivatives","cml/mathlib/matrix/rotation.tpp")],
["matrix elements, recovered angles"])
p("P17","Affine transform builders, application, composition and inversion agree",
"Translation, scale (uniform, non-uniform and inverse), skew-symmetric, affine and linear builders set exactly the documented part of the matrix, so that applying the matrix to a point or vector gives the documented result in both bases; transforming a vector ignores translation and transforming a point includes it. Concatenation applies the first transform and then the second, getters return what setters stored, basis-vector setters and getters address the documented axis, and rigid (rotation+translation) inversion undoes the transform.",
IC,"all transform parameters and points, 2D and 3D, homogeneous square matrices, 3x4/4x3/2x3/3x2 and larger shapes where accepted, both bases/layouts, fixed, dynamic and external storages",
"Tests check one literal transform per function; row-basis, non-square and column-major variants and interactions between functions are sparsely sampled.",
["cml/mathlib/matrix/translation.tpp","cml/mathlib/matrix/scale.tpp","cml/mathlib/matrix/transform.tpp","cml/mathlib/matrix/basis.tpp","cml/mathlib/matrix/concat.tpp","cml/mathlib/matrix/invert.tpp","cml/mathlib/matrix/misc.tpp","cml/mathlib/vector/transform.tpp"],
[("basis element addressing","cml/matrix/writable_matrix.tpp, cml/mathlib/matrix/basis.tpp"),("transform_point / transform_vector","cml/mathlib/vector/transform.tpp"),("matrix_invert_RT*","cml/mathlib/matrix/invert.tpp")],
["matrix elements, transformed points"])
p("P18","Alignment, look-at and orthonormal bases give proper rotations facing as told",
"For every non-degenerate alignment and reference, the orthonormal-basis (2D and 3D), aim/align rotation (matrix and quaternion, 2D and 3D) and look-at builders give an orthonormal right-handed basis whose designated axis is parallel to the requested direction and whose secondary axis is the closest possible to the reference, for every axis order. Look-at maps the eye to the origin, the target onto the positive (left-handed) or negative (right-handed) z axis at its distance, and keeps up in the upper half.",
IC,"all non-parallel align/reference pairs, all six 3D and two 2D axis orders, normalised or not, LH/RH, both bases, matrices and quaternions",
"Tests use axis-aligned literal inputs; axis orders other than the default and oblique inputs are rarely used.",
["cml/mathlib/vector/orthonormal.tpp","cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/matrix/transform.tpp","cml/mathlib/axis_order.h"],
[("orthonormal_basis","cml/mathlib/vector/orthonormal.tpp"),("matrix_look_at","cml/mathlib/matrix/transform.tpp")],
["basis vectors, transformed eye/target/up points"])
p("P19","Projections map the view volume to the clip cube; frustum planes bound it",
"For every valid orthographic or perspective volume given in floating point, handedness and z-clipping convention, and both bases, the projection matrix maps each corner of the view volume (after perspective division) to the corresponding corner of the clip cube, and the width/height and field-of-view forms equal the symmetric bounds form. Planes extracted from a modelview-projection matrix are unit-normal and classify a point as inside all six exactly when its clip coordinates lie in the clip volume.",
IC,"all valid bounds (asymmetric included), near/far, field of view and aspect, LH/RH, z in [-1,1] or [0,1], both bases/layouts, all test points",
"Tests evaluate a couple of literal volumes; sign conventions differ over 4 handedness/z-clip combinations x 2 bases x ~20 overloads.",
["cml/mathlib/matrix/projection.tpp","cml/mathlib/frustum.tpp"],
[("matrix_perspective*/matrix_orthographic*","cml/mathlib/matrix/projection.tpp"),("extract_frustum_planes","cml/mathlib/frustum.tpp")],
["projected corner coordinates, plane classification"])
p("P20","Polar, cylindrical and spherical conversions are mutually inverse",
"For every Cartesian point, vertical axis and spherical convention (latitude or colatitude), converting to polar, cylindrical or spherical coordinates gives a non-negative radius, angles in range and the documented height, and converting back returns the point; converting from any valid coordinates gives the documented point. Points on the axis or at the origin convert without NaN.",
IC,"all points (origin, axis and all octants included), axes 0..2, both conventions, float and double",
"Tests convert one or two literal points per axis; quadrant and axis-permutation errors need points elsewhere.",
["cml/mathlib/coordinate_conversion.tpp","cml/mathlib/coordinate_conversion.h"],
[("conversion functions","cml/mathlib/coordinate_conversion.tpp")],
["returned coordinates, reconstructed point"])
p("P21","Vector geometry helpers satisfy their defining relations",
"For every vector and direction: length, squared length, normalize (free, member and in-place), signed and unsigned angles in 2D and 3D, rotation of a vector about an axis, projection to a vector and to a hyperplane, perpendicular, and Manhattan distance equal their mathematical definitions within rounding. In particular normalize gives the unit vector of the same direction, the two projections sum to the vector and are orthogonal, rotation preserves length and the angle about the axis, and the signed angle is the rotation that takes the first vector to the second.",
IC,"all non-zero vectors (parallel, opposite and perpendicular pairs included), axes and angles, int/float/double where meaningful, fixed and run-time storages",
"Tests use a few axis-aligned literals; signs, quadrant and normalisation errors show elsewhere.",
["cml/mathlib/vector/angle.tpp","cml/mathlib/vector/rotation.tpp","cml/mathlib/vector/misc.tpp","cml/vector/readable_vector.tpp","cml/vector/writable_vector.tpp","cml/vector/functions.tpp"],
[("angle/rotation/projection functions","cml/mathlib/vector/*.tpp")],
["returned scalars and vectors"])
p("P22","Scalar helpers, index permutations and field-of-view conversions are correct",
"For all arguments in their domains, the scalar helpers (sign, clamp, wrap, in-range, map-range, square, cube, safe acos/asin/sqrt, inverse square root, degree/radian conversion; the last group and map-range for floating-point types) equal their definitions and stay in their documented range; the index helpers (next, previous, cyclic permutation, index of extreme element, absolute or not) return valid indices satisfying their definition. Degree/radian, horizontal/vertical field-of-view and zoom conversions are mutually inverse.",
["inputs"],"all finite scalars (out-of-range values, bounds, exact multiples of the wrap interval and ties included) in int, float and double",
"The repository has no tests for most of these helpers.",
["cml/scalar/functions.h","cml/scalar/constants.h","cml/util.h"],
[("scalar functions","cml/scalar/functions.h"),("fov/zoom conversions","cml/util.h")],
["return values"])
p("P23","Random generators stay within their contract for every seed",
"For every seed and argument, random scalars, integers and elements (vectors, matrices) stay within the closed requested range and cover it, and random unit vectors have unit length and reach every direction in every supported dimension. Random unit vectors drawn around an axis make at most the requested angle with it, and for scalars and vectors the same generator state gives the same result.",
["inputs","configurations"],"all generator seeds, ranges, dimensions 2..8, axes and cone angles in (0, pi/2], user-supplied generators",
"Tests draw a small number of samples from one seed and check length only.",
["cml/mathlib/random_unit.tpp","cml/scalar/functions.h","cml/vector/writable_vector.tpp","cml/matrix/writable_matrix.tpp"],
[("random_unit","cml/mathlib/random_unit.tpp"),("random_real/random_integer","cml/scalar/functions.h")],
["generated values"])
p("P24","Constant generators and fills set every element as documented",
"zero, fill, identity and cardinal/axis initialisers, whether member functions or free generator functions, in 2D, 3D, 4D or any run-time dimension, produce exactly the documented zero, constant, identity or axis vector, matrix or quaternion, overwriting whatever was there before, for every storage, layout, basis, shape (non-square included) and element type.",
IC,"all previous contents, shapes, dimensions and valid axis indices, storages, layouts, bases, element types and quaternion orders",
"Tests call them on fresh small square objects, so an element left unwritten for a non-square or run-time shape is not seen.",
["cml/mathlib/vector/generators.h","cml/mathlib/matrix/generators.h","cml/matrix/writable_matrix.tpp","cml/vector/writable_vector.tpp","cml/quaternion/writable_quaternion.tpp"],
[("identity/zero/fill/cardinal loops","cml/matrix/detail/generate.h, cml/vector/writable_vector.tpp")],
["all elements of the result"])
p("P25","Quaternions hold exactly the components they are given, in either order",
"A quaternion built or assigned from four values, a real part and an imaginary vector (in either argument order), arrays, pointers, initializer lists, or another quaternion or expression (of either order and any convertible element type) has exactly those components as w, x, y, z and as real and imaginary parts, indexing and data() following the declared order. Setters, put, copies and moves keep to the same components, and writing one component changes no other.",
IC,"all component values, both component orders, both cross conventions, float/double/int element mixes",
"Tests use one literal per constructor; conversions between orders and element types are combinatorial.",
["cml/quaternion/fixed_compiled.tpp","cml/quaternion/writable_quaternion.tpp","cml/quaternion/readable_quaternion.tpp","cml/quaternion/order_tags.h"],
[("assign overloads","cml/quaternion/writable_quaternion.tpp"),("component index tags","cml/quaternion/order_tags.h")],
["w/x/y/z, real, imaginary, operator[], data"])
p("P26","Results depend on the arguments alone, also across threads",
"Every operation's result (value, printed text, hash or error) is a function of its arguments: it is the same whatever other operations ran before, and while other threads run any operations on the same const objects, and results already obtained do not change when later ones are computed. Const operations never write memory another thread may read, and threads writing different elements, rows or columns of one object do not disturb each other. Only the functions documented to draw from std::rand are exempt.",
["inputs","histories","schedules"],"all operands, all sequences of operations, all interleavings of threads reading shared const objects or writing disjoint elements",
"Tests call each function once, in one thread; a hidden static buffer, a cache or a whole-row write gives right results there.",
["cml/matrix/detail/lu.h","cml/matrix/detail/inverse.h","cml/vector/dynamic.tpp","cml/matrix/dynamic.tpp","cml/mathlib/matrix/rotation.tpp","cml/mathlib/quaternion/rotation.tpp","cml/mathlib/vector/generators.h","cml/util"],
[("scratch storage of lu and inverse","cml/matrix/detail/inverse.h"),("element access","cml/matrix/writable_matrix.tpp")],
["return values, printed text, data races reported by the race detector"])
p("P27","A failed allocation changes and leaks nothing; storage uses its allocator",
"If an allocation fails during any operation on run-time sized vectors and matrices (assignment, resizing, expressions, products, in-place transposes and inverses, factorization, solving), std::bad_alloc reaches the caller, every operand and target has the size and elements it had before, no memory is lost, and the operation succeeds when repeated. Every block is returned to the allocator it came from, with the size that was asked for; a vector or matrix with a custom allocator takes all its storage from it, and the result of an expression uses the custom allocator on which its operands agree or which faces std::allocator (a matrix-vector product: its vector's allocator).",
["inputs","fault_sequences"],"all operations of run-time sized objects, each of their allocations failing, all pairs of allocators",
"No test makes an allocation fail or counts allocations, so an operation that changes its target before it has all its memory passes.",
["cml/vector/dynamic_allocated.tpp","cml/matrix/dynamic_allocated.tpp","cml/storage/allocated_selector.h","cml/matrix/matrix_product.tpp","cml/matrix/vector_product.tpp","cml/matrix/detail/lu.h","cml/matrix/detail/inverse.h","cml/matrix/detail/transpose.h"],
[("resize and destruction","cml/vector/dynamic_allocated.tpp"),("resize and destruction","cml/matrix/dynamic_allocated.tpp"),("allocator promotion","cml/storage/allocated_selector.h")],
["objects after std::bad_alloc","blocks allocated and returned","allocator of a result's storage"])
p("P28","Compositions of operations have the right value and the documented type",
"Any well-formed expression composed of vector, matrix, quaternion and scalar operations, of any depth and any mix of storages, element types, bases, layouts, value categories and named intermediate expressions, has element for element the value that plain loops over its operands give, and so has everything assigned, added or subtracted from it, whatever the destination's type. Its element type is the common C++ type of its operands, its size is known at compile time exactly when the operands determine it, and its temporary has that element type, size, basis and layout. A function given an expression returns what it returns for an object holding the same elements.",
["programs","inputs"],"all expressions over the library's operations, all operand types, sizes and values (exact arithmetic)",
"Tests use expressions of one or two operations with operands of one type; errors in how nodes nest, promote or keep their operands need a particular combination.",
["cml/vector/binary_node.tpp","cml/matrix/binary_node.tpp","cml/matrix/promotion.h","cml/vector/promotion.h","cml/storage/promotion.h","cml/common/promotion.h","cml/common/temporary.h","cml/quaternion/promotion.h","cml/matrix/matrix_product.tpp","cml/matrix/vector_product.tpp"],
[("node types and operand ownership","cml/common/type_util.h, cml/*/*_node.h"),("type promotion","cml/common/promotion.h, cml/matrix/promotion.h")],
["elements, element type, array sizes, basis and layout of every sub-expression","destinations","function results"])
p("P29","Results do not depend on how the program is built",
"The library may be used from any number of translation units, each including any of the public headers in any order: such a program compiles and links, and a translation unit needs only the headers of what it uses. Every operation gives the same values, printed text and errors with g++ and clang++, in every language version from C++17 on, at every optimisation level, with or without NDEBUG, and before main() as well as in it. Defining CML_NO_RUNTIME_VECTOR_SIZE_CHECKS or its matrix counterpart removes only the run-time rejection of sizes that do not conform: conforming operations, including those that resize their target, are unaffected.",
["configurations","inputs"],"all public headers and their orders, compilers, language versions, optimisation levels and configuration macros; all operands (conforming ones where the checks are left out)",
"The test suite is built in one configuration, one translation unit per program, with fixed include orders.",
["cml/cml.h","cml/vector.h","cml/matrix.h","cml/quaternion.h","cml/mathlib/mathlib.h","cml/vector/size_checking.tpp","cml/matrix/size_checking.tpp","cml/vector/detail/check_or_resize.h","cml/matrix/detail/check_or_resize.h","cml/common/exception.h"],
[("size checks compiled in or out","cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp"),("non-template functions","cml/scalar/functions.h, cml/mathlib/*/generators.h, cml/mathlib/euler_order.h")],
["compiling and linking","values, printed text and exceptions in every configuration"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
print(len(P))
