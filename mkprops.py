#!/usr/bin/env python3
"""Writes properties.jsonl (kept in code so that anchors and titles stay in step with vf/props.py)."""
import json, os
IT, TR = 'cpp/src/hermite/iterators.cpp', 'cpp/src/hermite/transform.cpp'
ALLSETS = 'every index set (triangle, cube, cross, cross_nc, rectangle), dimension and degree'
L = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    L.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[0]) for m in mech.split(',')])))


prop('C01', 'Index sets are enumerated exactly, once each, in their canonical order',
     'For every index set, dimension and degree, listing the multi-indices (s_list, and stepping an iterator object with increment until isFull) yields each member of the set exactly once and nothing else, and the reported size equals the number listed: triangle = sum <= degree; cube = every entry <= degree; rectangle = first entry <= degree and every other entry <= degree/2; cross and cross_nc = product of max(1, m_i) <= max(1, degree). '
     'The order is total and fixed: triangle and cross_nc compare the partial sums m_1+..+m_k from the last to the first; cube and rectangle compare the (weighted: entries other than the first count double in rectangle) maximum, then the last position attaining it, then the entries from last to first; cross compares the partial products of max(1, m_i) from last to first, then the entries from last to first. '
     's_increment moves to the immediate successor in that order and reports the end exactly at the last element.',
     ['inputs'], ALLSETS + ' for which the set fits 32-bit counting', 'tests list a few small sets; the order and completeness must hold for every dimension and degree because every coefficient vector of the library is laid out by it',
     [IT, 'cpp/src/hermite/iterators.hpp'], 'X_iterator::s_increment, the constructors that build list and hash_table, s_list, s_size, Multi_index_iterator::increment/reset')
prop('C02', 'Index lookup inverts the enumeration',
     'For every index set and every multi-index m of it, index(m) of an iterator object is the position of m in the enumeration, and has(m) is true exactly for the members of the set, including for out-of-set and wrong-length queries. '
     'The closed-form positions Triangle_iterator::s_index and Cube_iterator::s_index agree with the enumeration for every degree that contains m, and looking up never changes the state of the iterator.',
     ['inputs'], ALLSETS + ', every multi-index inside and outside the set', 'a collision or an off-by-one of the lookup only shows for particular multi-indices (for instance entries of several digits) that no finite sample covers',
     [IT, 'cpp/src/hermite/lib.cpp'], 'hash_print keys, hash_table built in the constructors, Multi_index_iterator::index/has, Triangle_iterator::s_index, Cube_iterator::s_index')
prop('C03', 'Enumerations are nested across degrees',
     'For triangle, cube, rectangle and cross, the enumeration for degree d is a prefix of the enumeration for every larger degree in the same dimension, so truncating a coefficient vector (subdegree) is taking its first entries. '
     'Consequently the position of a multi-index does not depend on the degree of the set it is looked up in.',
     ['inputs'], 'every consistent index set, dimension, and pair of degrees d <= e', 'it relates two unbounded enumerations; tests compare a handful of degrees',
     [IT], 'the canonical orders of s_increment put every element of a smaller degree first')
prop('C04', 'Degree and dimension are recovered from the number of coefficients',
     'For every index set, dimension and degree (at least 1 for the hyperbolic crosses), get_degree applied to the number of multi-indices of that set returns exactly that degree, for every degree up to 250 whose set size fits 32 bits; s_find_dim likewise recovers the dimension of a triangle set of degree at least 1. '
     'The search terminates without evaluating any size that overflows.',
     ['inputs'], ALLSETS, 'sizes grow quickly and the search is driven by them: overflow of an intermediate size, or sets of equal size for different degrees, only appear in some dimensions',
     [IT, 'cpp/src/hermite/lib.cpp'], 's_get_degree, pos_bissect, s_size, Triangle_iterator::s_find_dim')
prop('C05', 'Quadrature grids are traversed in row-major order',
     'Grid_iterator::list(bounds) yields every multi-index with 0 <= m_i < bounds_i exactly once, with the last coordinate varying fastest, and Grid_iterator::index returns the position of a multi-index in that list. '
     'discretize evaluates the function at the affinely mapped node translation + dilation * node for every grid point, in that same order.',
     ['inputs'], 'every number of dimensions and every positive bounds vector whose product fits 32 bits', 'every transform and integral indexes its data by this order; tests only use a few shapes, mostly equal bounds',
     [IT, 'cpp/src/hermite/discretize.cpp'], 'Grid_iterator::increment/index/list, discretize_from_string, map_point')
prop('C06', 'Hermite polynomials satisfy the normalised recurrence and stay in bounds',
     'For every degree d and point x, hermite_eval fills entries 0..d of its output with the orthonormal Hermite polynomials h_0 = 1, h_1 = x, h_{i+1} = (x h_i - sqrt(i) h_{i-1}) / sqrt(i+1), and touches no other entry; degree 0 is valid.',
     ['inputs'], 'every degree >= 0, every real x, every output buffer of at least degree + 1 entries', 'the recurrence and the memory accesses must be right at every degree; tests sample a few degrees',
     ['cpp/src/hermite/hermite.cpp', 'cpp/src/hermite/hermite.hpp'], 'hermite_eval, REC_A, REC_B')
prop('C07', 'Transforms are the quadrature sums over the tensor basis',
     'The forward transform returns, for the i-th multi-index m of the index set, the sum over all grid points of weight * f * product over dimensions of the m_d-th basis function (orthonormal Hermite polynomial, or 1/sqrt(2 pi), sin(kx)/sqrt(pi), cos(kx)/sqrt(pi) in Fourier directions) at that node; the backward transform evaluates the sum of coefficients times basis functions at every grid point. '
     'integrate returns the same weighted sum for the constant function (basis index 0 scaled to the value 1 in Hermite directions, the plain integral in Fourier directions).',
     ['inputs'], 'every index set, dimension, degree, number of nodes per dimension, and choice of Fourier directions', 'the accumulation mixes grid order, multi-index order and the basis tables; tests use few shapes and mostly equal numbers of nodes',
     [TR], '_transform, transform, integrate')
prop('C08', 'Hermite triple products are the exact integrals',
     'triple_products_1d(n)[k][i][j] equals the integral of h_k h_i h_j against the standard Gaussian for all i, j <= n and k <= 2n: zero unless i + j + k is even and the triangle inequality holds, otherwise sqrt(i! j! k!) / ((s-i)! (s-j)! (s-k)!) with s = (i+j+k)/2, and symmetric in i and j.',
     ['inputs'], 'every degree n >= 0 and all indices', 'a recursion over three indices; tests compare a few degrees',
     ['cpp/src/hermite/varf.cpp'], 'triple_products_1d')
prop('C09', 'Fourier triple products are the exact integrals',
     'triple_products_fourier(n)[k][i][j], for even n, equals the integral over (-pi, pi) of the product of the three normalised trigonometric functions (index 0 the constant 1/sqrt(2 pi), 2k-1 sin(kx)/sqrt(pi), 2k cos(kx)/sqrt(pi)), for all i, j <= n and k <= 2n, including when frequencies coincide or differ.',
     ['inputs'], 'every even degree n >= 0 and all indices', 'the many sign and coincidence cases only appear for particular frequency triples',
     ['cpp/src/hermite/varf.cpp'], 'triple_products_fourier, COS, SIN')
prop('C10', 'Variational matrices have the exact triple-product entries',
     'varf returns the square matrix indexed by the index set whose (i, j) entry is the sum over multi-indices m of degree 2*degree of the transform coefficient of the input at m times the product over dimensions of the one-dimensional triple products of m, i and j, where coefficients below 1e-12 times max(1, norm of the coefficients) are dropped. '
     'The dense, Boost dense and sparse results agree, and the matrix is symmetric.',
     ['inputs'], 'every index set, degree, dimension, input function and mix of Fourier directions', 'the entries combine four functions over unbounded index sets; tests compare with quadrature for a few functions',
     ['cpp/src/hermite/varf.cpp'], 'varf, _transform, triple products, _tensorize_mats_axes, matrix::construct')
prop('C11', 'Derivative variational matrices shift columns correctly',
     'varfd(A, direction) has entry (i, j) equal to sqrt(j_dir) * A(i, j - e_dir) in a Hermite direction (0 when j_dir = 0), and in a Fourier direction k * A(i, cos k) for j = sin k, -k * A(i, sin k) for j = cos k and 0 for j = 0. '
     'The result is the same for dense, Boost dense and sparse input.',
     ['inputs'], 'every index set closed under the shift, dimension, degree, direction and matrix', 'signs and index shifts must be right for every column and every storage format; tests exercise mostly one format',
     ['cpp/src/hermite/varf.cpp'], 'varfd (generic and the dense specialisation)')
prop('C12', 'Tensorisation of vectors is the outer product on the index set',
     'tensorize of coefficient vectors returns, for every multi-index m of the target set, the product over the given factors of the coefficient of the factor at the sub-multi-index of m in that factor\'s directions (one factor per axis, or one per group of directions), and, for a single factor with a direction, the factor\'s coefficient where all other entries of m are 0 and 0 elsewhere.',
     ['inputs'], 'every index set, dimension, degree and partition of the directions into groups (increasing within a group for rectangle)', 'depends on the interplay of two enumerations; tests use a few dimensions and triangle sets mostly',
     ['cpp/src/hermite/tensorize.cpp'], 'tensorize_vecs_dirs, tensorize_vecs_axes, tensorize_vec_id')
prop('C13', 'Tensorisation of matrices is the Kronecker product on the index set',
     'tensorize of matrices returns, for every pair (m, n) of multi-indices of the target set, the product over the factors of the factor entry at the sub-multi-indices of m and n; for a single factor with a direction, that entry when m and n agree in every other direction and 0 otherwise. '
     'Dense and sparse inputs and outputs give the same matrix.',
     ['inputs'], 'every index set, dimension, degree, partition of the directions into increasing groups, and storage formats', 'same as for vectors, with pruning of zero factors in the sparse code paths',
     ['cpp/src/hermite/tensorize.cpp'], '_tensorize_mats_axes, tensorize_mats_dirs, tensorize_mat_id')
prop('C14', 'Projection selects the coefficients aligned with the directions',
     'project of a vector on directions dirs returns, for every multi-index n of the set of dimension |dirs| and the same degree, the input coefficient at the multi-index equal to n on dirs and 0 elsewhere; project of a matrix selects rows and columns in the same way, for dense and sparse matrices. '
     'Projecting a tensorised vector returns the factor.',
     ['inputs'], 'every index set, dimension, degree, set of directions, vector and matrix', 'two enumerations of different dimension must be matched for every shape',
     ['cpp/src/hermite/project.cpp'], 'project_vec_nd, project_vec_1d, project_mat_nd, project_mat_1d')
prop('C15', 'Inner contracts exactly the shared directions',
     'inner(s1, s2, dirs1, dirs2) returns the series over the directions that belong to exactly one operand (in increasing order), whose coefficient at m is the sum, over multi-indices c of the index set of the shared directions, of s1 at (m, c) times s2 at (m, c), each restricted to its own directions, skipping combinations outside the operands\' sets.',
     ['inputs'], 'every index set, degree and pair of increasing direction lists', 'the bookkeeping of shared and free directions has many shapes; tests cover a few',
     ['cpp/src/hermite/inner.cpp'], 'inner')
prop('C16', 'numpy conversions preserve every entry for any shape and stride',
     'to_mat, to_bmat and to_boost_mat of a two-dimensional float64 numpy array (any shape, any row stride, columns contiguous) followed by to_numpy return an equal array, reading no memory outside it; arrays that are not two-dimensional or whose columns are not contiguous are rejected with an exception.',
     ['inputs'], 'every shape and stride, including rectangular, sliced and reversed arrays', 'memory layout errors are silent for square contiguous arrays, the only ones tested',
     ['cpp/src/hermite/python/converters.cpp'], 'to_mat, to_bmat, to_boost_mat, to_numpy')
prop('C17', 'Sparse and dense conversions preserve every entry',
     'to_spmat of a dense matrix or of CSR arrays without duplicates, full, row_col_val and matrix::convert preserve shape and every entry, and to_spmat and row_col_val store or list exactly the nonzero (respectively stored) entries. matrix::eye is the identity and matrix::construct the zero matrix.',
     ['inputs'], 'every matrix shape and sparsity pattern, including empty rows', 'row pointers and empty rows have corner cases at every position',
     ['cpp/src/hermite/sparse.cpp', 'cpp/src/hermite/matrix.cpp'], 'to_spmat, full, row_col_val, matrix::convert/eye/construct')
prop('C18', 'Grouping directions gives the finest common coarsening',
     'finest_common(set1, set2), for two families of pairwise disjoint sets of directions with the same union (empty members allowed), returns pairwise disjoint sets such that every member of either family lies within one of them, and no family with that property is finer: two directions are grouped together exactly when a chain of overlapping members of the two families links them. The arguments are not modified.',
     ['inputs'], 'every pair of families of disjoint sets of directions with the same union, of any size and overlap', 'chains of overlaps of any length and the arbitrary iteration order of sets; the tests use one or two small partitions',
     ['hermipy/lib.py', 'hermipy/quad.py'], 'finest_common')
prop('C19', 'Projection and tensorisation keep the data of every direction',
     'Position.tensorize (and *) of diagonal positions returns, in increasing order, exactly the directions that appear in one argument only, each with the mean, variance and type it has there; a direction may appear twice only with equal mean and variance (otherwise, or if it appears three times, or if a covariance is not diagonal, it is rejected). Position.project(directions), for one direction or a sorted list, returns those directions with their mean, variance and type. Quad.project and Quad.tensorize (distinct directions) carry the nodes and weights of every direction along in the same way, and the factor of a product is the product of the factors. No argument is modified.',
     ['inputs'], 'every number of positions or quadratures, any directions, overlaps, means, variances and types', 'index bookkeeping between unsorted, overlapping direction lists; the tests use a few fixed positions whose directions are already in order',
     ['hermipy/position.py', 'hermipy/quad.py'], 'Position.project, Position.tensorize, Quad.project, Quad.tensorize')
prop('C20', 'Series operations act on the coefficients of matching multi-indices',
     'For series (coefficients on an index set of some degree, a diagonal position with increasing directions, a factor): s + t and s - t are defined exactly when positions, index sets, factors and numbers of coefficients agree (otherwise an exception) and add the coefficients entrywise; multiplication, division and negation by numbers scale them; all keep position, factor and index set. project(directions) keeps the coefficients of the multi-indices supported on those directions, with the position and factor restricted to them; subdegree(d) truncates to, or pads with zeros up to, the multi-indices of degree d (cross_nc is rejected); to_cross(d) selects the coefficients of the hyperbolic cross and keeps the factor. The product of two series of equal degree and index set contracts exactly the shared directions (on which position and factor must agree), on the remaining directions with their factors; a series without directions acts as a number. No operand is modified.',
     ['inputs'], 'every index set, degree, number and choice of directions, factors and coefficients', 'which coefficient belongs to which direction is invisible in the shapes; broadcasting hides mismatches; the tests use a few two-dimensional examples with factor 1',
     ['hermipy/series.py', 'hermipy/lib.py'], 'Series.tensorize, __add__, __mul__, __sub__, __neg__, __truediv__, project, subdegree, to_cross; cross_in_triangle')
prop('C21', 'Operator operations act on the entries of matching multi-indices',
     'For discretised operators (a dense or sparse matrix on an index set of some degree, a diagonal position with increasing directions, a factor): a + b and a - b are defined exactly when positions, index sets, factors and matrix shapes agree (otherwise an exception) and add entrywise; multiplication and negation by numbers scale the matrix; all keep position, factor and index set. Applying an operator to a series with the same position and index set is the matrix-vector product. project(directions), subdegree(d) (d at most the degree; cross_nc is rejected) and to_cross(d) return the submatrix of the rows and columns whose multi-indices are supported on the directions, of degree d, or in the cross, with position and factor restricted accordingly. Varf.tensorize of operators on disjoint directions, equal degree and index set is the tensor product on the union of the directions, whatever the order of the arguments, with the product of the factors. No operand is modified.',
     ['inputs'], 'every index set, degree, number and choice of directions, dense and sparse matrices, factors', 'row and column bookkeeping over multi-indices; broadcasting hides mismatches; the tests never project an operator and use factor 1',
     ['hermipy/varf.py', 'hermipy/lib.py'], 'Varf.tensorize, __add__, __mul__, __sub__, __neg__, __call__, project, subdegree, to_cross; cross_in_triangle')
prop('C22', 'Operator matrices of a quadrature are the Galerkin matrices of the operator',
     'For a quadrature with diagonal covariance, Quad.varf(f, degree) is the varf matrix (C10) of the values of f at the quadrature points; Quad.varfd(f, degree, directions) differentiates it (C11) once per listed direction that the quadrature has, in the position that direction has among the directions of the quadrature, each time divided by the standard deviation of that direction; Quad.discretize_op(op, degree) is the sum, over the derivatives in the operator seen through the factor, of the varfd matrices of the coefficient functions, and refuses operators in other directions; for Hermite functions on triangle and cube sets this is the quadrature of phi_i * (L (factor * phi_j)) / factor. The results carry the position, the factor and the index set; sparse and tensorize do not change the value (for sets closed under the products); the quadrature and the arguments are not modified.',
     ['inputs'], 'every quadrature rule, directions, means, variances, factor, function or grid values, list of derivatives, operator, degree and index set', 'the derivative of the wrong direction or the wrong standard deviation has the right shape; tests use unit variances, few directions and compare with discretisations of the same kind',
     ['hermipy/quad.py', 'hermipy/position.py', 'hermipy/operator.py'], 'Quad.varf, Quad.varfd, Quad.discretize_op, Quad.discretize')
prop('C23', 'Quadratures map, transform, evaluate and integrate in their own coordinates',
     'Quad.discretize(f) are the values of f at the points mean + factor of the covariance times the reference nodes (mapped_nodes returns these points). Quad.transform(f, degree) is the transform (C07) of the values of f divided by the factor function, with the position, factor and index set of the quadrature. Quad.eval(series) evaluates the series, whatever its mean, covariance and factor, at those same points (an exception if the two covariance factors are not related by a dilation). Quad.integrate is the weighted sum of the values, of a series, a function or grid values, divided by the Gaussian weight of the Hermite directions if flat; Quad.norm is the corresponding norm; Quad.series wraps coefficients unchanged. tensorize does not change the value; the quadrature and the arguments are not modified.',
     ['inputs'], 'every quadrature rule, directions, types, means, covariances, factors, functions, grid values and series', 'translations and dilations that cancel in the common case of equal positions; the tests evaluate series on the quadrature that produced them',
     ['hermipy/quad.py', 'hermipy/position.py'], 'Quad.discretize, mapped_nodes, transform, eval, integrate, norm, series; Position.weight')
prop('C24', 'Splitting, projecting and tensorizing functions is exact',
     'For a function (an expanded expression in the coordinates of its sorted directions): split(legacy=False) returns one dictionary per term of the sum; its keys are the empty set (the constant) and the finest partition of the directions such that every factor of the term involves directions of one group only; the entry of a group depends on the directions of that group only, and summing the products of the entries gives back the function; the legacy form returns, per term, one factor per direction (or the whole term when it does not separate) and the constant. project(directions) of a function with one term returns the product of the groups inside the directions, times the constant when the first direction is among them, so that the projections on the parts of a partition multiply to the function; it raises an exception when a group involves both directions asked for and others, or when there are several terms. tensorize multiplies functions of pairwise disjoint directions (an exception otherwise) into a function of the sorted union; +, * and / with functions of the same directions (an exception otherwise), expressions and numbers are pointwise; as_xyz and ccode name the coordinates of the directions; to_function of a Hermite series is the sum of coefficients times basis functions times the factor. No operand is modified.',
     ['inputs'], 'every expression, number of directions, choice of directions, constants, and order of the factors', 'which factor goes with which group depends on the structure of the expression (factors that link directions in a chain, constants, repeated variables); the tests split two or three polynomials in separated form',
     ['hermipy/function.py', 'hermipy/series.py'], 'Function.split, project, tensorize, __add__, __mul__, __truediv__, as_xyz, ccode; Series.to_function')
prop('C25', 'Operators act, combine, conjugate and split exactly',
     'For linear differential operators in the sorted directions of their unknown function (expressions linear in one unknown function and its partial derivatives): calling an operator on a function (or expression) gives the function obtained by putting it in place of the unknown and evaluating the derivatives; calling it on an operator gives the composition; +, - and unary - are those of the actions, A * h multiplies the action by the function h, and map(h) is the conjugated operator u -> A(h u) / h; operands in other directions are rejected with an exception. split() of an operator of order at most five maps each multi-index to a function of the directions of the operator such that the sum over its items of function times partial derivative is the operator, whatever the form of the expression (products under a derivative included), without zero entries; an operator of higher order is rejected. as_xyz renames the coordinates of every direction. No operand is modified.',
     ['inputs'], 'every operator, order, coefficients, direction set and function', 'variable coefficients, mixed derivatives and directions that do not start at 0; the tests apply operators with few terms',
     ['hermipy/operator.py'], 'Operator.__init__, __call__, __add__, __sub__, __neg__, __mul__, map, split, as_xyz')
json_out = '\n'.join(json.dumps(x, ensure_ascii=False) for x in L) + '\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w').write(json_out)
