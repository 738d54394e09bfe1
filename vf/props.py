"""Which units and bounded groups decide which property."""
TRUSTED = [
    'Verus (rust_verify, vstd) and Z3', 'clang 18 AST of the translation unit (template instantiations included)',
    'vf/cpp2rs.py: the mechanical C++ -> Verus translation', 'spec/prelude.rs: meaning of C++ primitives, std::vector, std::string, std::unordered_map, Boost binomial (external_body axioms)',
]
SETS = ['base', 'triangle', 'cube', 'rectangle', 'cross', 'cross_nc']
PROPS = {
    'C01': dict(title='Index sets are enumerated exactly, once each, in their canonical order', level='proof', units=[u + ':enum' for u in SETS], groups=['enum'], pygroups=['enum'],
                bound='dimension <= 8, degree <= 130, sets of at most 6000 multi-indices (thorough: 10, 260, 60000); non-trivial: dimension > 1 and degree > 1'),
    'C02': dict(title='Index lookup inverts the enumeration', level='proof', units=['lib:hash'] + [u + ':index' for u in SETS], groups=['lookup'], pygroups=['lookup'], bound='every multi-index in a box around sets of at most a few thousand elements, dimension <= 7'),
    'C03': dict(title='Enumerations are nested across degrees', level='proof', units=['nested'] + [u + ':list' for u in ('triangle', 'cube', 'rectangle', 'cross')], groups=['nested'], pygroups=['nested'], bound='dimension <= 7, degree <= 100, sets of at most 8000 multi-indices (thorough: 9, 250, 60000)'),
    'C04': dict(title='Degree and dimension are recovered from the number of coefficients', level='proof', units=['lib:bissect'] + [u + ':degree' for u in ('triangle', 'cube', 'rectangle', 'cross', 'cross_nc')], groups=['degree'], pygroups=['degree'], bound='dimension <= 9, degree <= 250, while the set size fits 32 bits'),
    'C05': dict(title='Quadrature grids are traversed in row-major order', level='proof', units=['grid', 'discretize'], groups=['grid'], pygroups=['grid'], bound='dimension <= 4, bounds up to 7 per direction, discretize on random nodes'),
    'C06': dict(title='Hermite polynomials satisfy the normalised recurrence and stay in bounds', level='proof', units=['hermite'], groups=['hermite'], bound='degree <= 60, points in [-8, 8]'),
    'C07': dict(title='Transforms are the quadrature sums over the tensor basis', level='proof', units=['transform'], groups=['transform'], pygroups=['transform'],
                bound='dimension <= 4, degree <= 9, up to 5 points per direction, random nodes and weights, both directions'),
    'C08': dict(title='Hermite triple products are the exact integrals', level='proof', units=['htrip'], groups=['triple'], pygroups=['triple'],
                bound='degree <= 24 (thorough: 40), every entry'),
    'C09': dict(title='Fourier triple products are the exact integrals', level='proof', units=['fourier'], groups=['fourier'], pygroups=['fourier'],
                bound='even degree <= 22 (thorough: 40), every entry'),
    'C10': dict(title='Variational matrices have the exact triple-product entries', level='proof', units=['varf', 'ops', 'varfsym'], groups=['varf'], pygroups=['varf'],
                bound='dimension <= 3, degree <= 7, three matrix types, random grids'),
    'C11': dict(title='Derivative variational matrices shift columns correctly', level='proof', units=['varfd'], groups=['varfd'], pygroups=['varfd'],
                bound='dimension <= 3, degree <= 10, random matrices, three matrix types'),
    'C12': dict(title='Tensorisation of vectors is the outer product on the index set', level='proof', units=['project:extract', 'tvec'], groups=['tvec'], pygroups=['tvec'],
                bound='dimension <= 4, degree <= 12, random partitions of the directions'),
    'C13': dict(title='Tensorisation of matrices is the Kronecker product on the index set', level='proof', units=['matrix:mats', 'tmat', 'tmats'], groups=['tmat'], pygroups=['tmat'],
                bound='dimension <= 4, at most 70 basis functions, random partitions of the directions, dense and sparse'),
    'C14': dict(title='Projection selects the coefficients aligned with the directions', level='proof', units=['lib:aligned', 'project', 'project_mat'], groups=['project'], pygroups=['project'],
                bound='dimension <= 4, degree <= 6, at most 200 coefficients, random directions'),
    'C15': dict(title='Inner contracts exactly the shared directions', level='proof', units=['inner'], groups=['inner'], pygroups=['inner'],
                bound='at most 4 directions in total, degree <= 9, random overlaps'),
    'C16': dict(title='numpy conversions preserve every entry for any shape and stride', level='proof', units=['converters'], groups=[], pygroups=['convert'],
                bound='shapes up to 6 x 6 (thorough: 23 x 23) and some large ones, every row stride and order of numpy views',
                assume=['Boost.Python / Boost.NumPy (ndarray accessors, make_tuple, zeros, from_data, copy, row assignment) and boost::multi_array, ublas::matrix storage: contracts of spec/nd.rs']),
    'C17': dict(title='Sparse and dense conversions preserve every entry', level='proof', units=['matrix', 'sparse'], groups=['sparse'], pygroups=['sparse'],
                bound='matrices up to 7 x 7 of any density, random CSR triples'),
    'C18': dict(title='Grouping directions gives the finest common coarsening', level='proof', units=['pylib'], groups=[], pygroups=['coarsen'],
                bound='every pair of partitions of at most 4 (thorough: 5) directions, random partitions of up to 12',
                assume=['Python built-ins (set, frozenset, list): contracts of spec/py.rs; list(set) enumerates the set in any order; termination is not proved']),
    'C19': dict(title='Projection and tensorisation keep the data of every direction', level='proof', units=['pypos', 'pyquad'], groups=[], pygroups=['position'],
                bound='random positions of up to 6 of 12 directions, up to 4 factors; quadratures of up to 5 directions',
                assume=['Python built-ins, numpy array indexing, Position.__init__, Quad.__init__ and sympy products: contracts of spec/py.rs; Function.project is uninterpreted']),
    'C20': dict(title='Series operations act on the coefficients of matching multi-indices', level='proof', units=['pyseries', 'pycross'], groups=[], pygroups=['series'],
                bound='triangle, cube and cross sets, up to 4 of 5 directions, at most 80 coefficients, factors that are products over the directions',
                assume=['Python built-ins, numpy arithmetic and indexing, Series.__init__, Position.__eq__ and sympy products and quotients: contracts of spec/py.rs; Function.project is uninterpreted',
                        'hermipy.core wrappers (project, inner, iterator_size, iterator_index, iterator_list_indices) are functions of their arguments here: what they compute is C01, C02, C14, C15 (bounded checks of C20 use independent oracles for the composition); the sizes of nested sets increase with the degree, members of the cross have product <= degree, triangle indices of a multi-index of degree <= d are below the size (C01-C03)']),
    'C21': dict(title='Operator operations act on the matrix entries of matching multi-indices', level='proof', units=['pyvarf', 'pycross'], groups=[], pygroups=['varfobj'],
                bound='triangle, cube and cross sets, up to 4 of 5 directions, at most 70 basis functions, dense and sparse matrices, factors that are products over the directions',
                assume=['Python built-ins, numpy and scipy.sparse arithmetic and indexing, Varf.__init__, Series.__init__, Position.__eq__ and sympy products: contracts of spec/py.rs; Function.project is uninterpreted',
                        'hermipy.core wrappers (project, tensorize, iterator_size, iterator_index, iterator_list_indices) are functions of their arguments here: what they compute is C01, C02, C13, C14 (bounded checks of C21 use independent oracles for the composition); sizes and membership as for C20']),
    'C22': dict(title='Operator matrices of a quadrature are the Galerkin matrices of the operator', level='proof', units=['pyquadop'], groups=[], pygroups=['quadop'],
                bound='up to 3 of 5 directions with 2 to 4 nodes each, degree <= 6, at most 30 basis functions, polynomial, trigonometric and Gaussian functions, at most two derivatives per term in operators',
                assume=['Python built-ins, numpy (including that eig of a diagonal matrix returns its diagonal and the identity), sympy, Function.__init__, Varf.__init__: contracts of spec/py.rs; Function.ccode, Operator.split, Operator.map and Operator.__init__ are uninterpreted functions of their arguments (bounded checks of C22 use independent oracles)',
                        'hermipy.core wrappers (discretize, varf, varfd) are functions of their arguments here: what they compute is C05, C10, C11; matrices have the size of the index set (C03)',
                        'the decorators cache, tensorize_at, debug and log_stats are dropped: a decorated call is the undecorated call (the bounded checks compare tensorize on and off; the cache is out of reach, see DESIGN.md)']),
    'C23': dict(title='Quadratures map, transform, evaluate and integrate in their own coordinates', level='proof', units=['pyquadfn'], groups=[], pygroups=['quadfn'],
                bound='up to 3 of 5 directions with 2 to 4 nodes each, degree <= 6, at most 40 basis functions; two-dimensional covariances that are not diagonal',
                assume=['Python built-ins, numpy (inv, dot, norm, elementwise arithmetic), sympy, Function.__init__, Series.__init__: contracts of spec/py.rs; Function.ccode, Position.weight and the covariance factor (Position.__init__) are uninterpreted functions of their arguments (bounded checks of C23 use independent oracles); mapped_nodes and norm are covered by the bounded check only',
                        'hermipy.core wrappers (discretize, transform, integrate) are functions of their arguments here: what they compute is C05, C07',
                        'the decorators cache, tensorize_at, debug and log_stats are dropped: a decorated call is the undecorated call (the bounded checks compare tensorize on and off; the cache is out of reach, see DESIGN.md)']),
    'C24': dict(title='Splitting, projecting and tensorizing functions is exact', level='proof', units=['pyfun'], groups=[], pygroups=['function'],
                bound='up to 4 of 5 directions, expressions with up to 4 terms of up to 6 factors (powers, trigonometric, exponential, mixed), all pairs of operands; Hermite series of degree <= 5',
                assume=['Python built-ins and sympy (spec/fun_py.rs): values of sums, products and quotients, args of Add and Mul, free_symbols of a part lie in those of the whole, an expression depends on its free symbols only; Function.__init__ keeps the expression (up to expansion) and the directions, and rejects expressions in other directions',
                        'split with legacy=True, as_xyz, ccode, Function.__init__ and Series.to_function are covered by the bounded check only']),
    'C25': dict(title='Operators act, combine, conjugate and split exactly', level='proof', units=['pyoper'], groups=[], pygroups=['operator'],
                bound='up to 3 of 5 directions, orders up to 5 (6 must be rejected), up to 4 terms with products of up to 2 coefficient functions; values at two points of one test function each',
                assume=['Python built-ins and sympy (spec/sym_py.rs, spec/oper_py.rs): values of sums, products and quotients of expressions with one unknown function; subs followed by doit replaces the unknown function; expand keeps the value; Function.__init__ and Operator.__init__ keep the expression and the directions',
                        'split, as_xyz, Operator.__init__, operands given as strings or numbers to __call__ and map are covered by the bounded check only']),
}


def assumptions(pr, proofs):
    out = ['double arithmetic is real arithmetic (rounding, overflow and NaN are not modelled); integers are exact machine integers']
    st = sorted({s for d in proofs for s in d.get('assumed_contracts', [])})
    if st:
        out.append('callee contracts used here and discharged by the units of other checks: ' + ', '.join(st))
    out += pr.get('assume', [])
    for d in proofs:
        if d['status'] == 'out_of_reach':
            out.append('unit %s not proved on this tree (%s): bounded stand-in only' % (d['unit'], d.get('reason', '')[:200]))
    return out
NOT_APPLICABLE = {}
