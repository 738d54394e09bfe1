"""Mechanical translation of functions of the Python package to Verus.

The accepted subset: straight-line code, if/while/for over lists, sets and dicts, comprehensions and any/all with pure
conditions, nested function definitions, calls with a contract.  Every construct outside the table below raises
Unsupported.  Values are typed by the sidecar's parameter types and the operation table; Python integers are mathematical
integers, containers have value semantics (an assignment that would alias a mutable container is rejected, and so is
mutating a parameter).  `raise` becomes a diverging call: contracts speak about normal returns (@maythrow: when it may)."""
import ast, copy, os, re
from cpp2rs import Unsupported

# ------------------------------------------------------------------------------------------------ types
# name -> (Rust type, spec type, mutable)
TY = {
    'int': ('PInt', 'int', False), 'bool': ('bool', 'bool', False), 'real': ('PReal', 'real', False), 'str': ('PStr', 'Seq<char>', False),
    'fs': ('FS', 'Set<int>', False), 'sfs': ('SFS', 'Set<Set<int>>', True),
    'vec': ('PVec', 'Seq<real>', True), 'mat': ('PMat', 'Seq<Seq<real>>', True),        # numpy arrays of floats
    'none': ('PNone', 'int', False), 'shape': ('PShape', '(int, int)', False), 'kw': ('PKw', 'int', False),
    'rep': ('PRep', 'int', False),       # an argument that only chooses the representation of the result (sparse, tensorize): nothing is known about it
    'op': ('Op', 'OpV', False), 'nv': ('Nv', 'NvV', False), 'bvec': ('BVec', 'Seq<bool>', True), 'mi': ('L<PInt>', 'Seq<int>', False),
    'symb': ('Symb', 'int', False), 'syms': ('Syms', 'Set<int>', False),      # symbols of an expression
    'ser': ('Ser', 'SerV', False), 'varf': ('Vf', 'VarfV', False),
    'pos': ('Pos', 'PosV', False), 'quad': ('Qd', 'QuadV', False), 'fun': ('Fun', 'FunV', False), 'expr': ('Expr', 'ExprV', False),
}
# attributes of objects: (type, name) -> (exec accessor, spec template, type)
ATTR = {
    ('pos', 'dirs'): ('pos_dirs', '{0}.dirs', 'list:int'), ('pos', 'mean'): ('pos_mean', '{0}.mean', 'vec'), ('pos', 'cov'): ('pos_cov', '{0}.cov', 'mat'),
    ('pos', 'types'): ('pos_types', '{0}.types', 'list:str'), ('pos', 'is_diag'): ('pos_is_diag', '{0}.is_diag', 'bool'), ('pos', 'dim'): ('pos_dim', '{0}.dim', 'int'),
    ('quad', 'position'): ('quad_position', '{0}.position', 'pos'), ('quad', 'nodes'): ('quad_nodes', '{0}.nodes', 'mat'), ('quad', 'weights'): ('quad_weights', '{0}.weights', 'mat'),
    ('ser', 'coeffs'): ('ser_coeffs', '{0}.coeffs', 'vec'), ('ser', 'position'): ('ser_position', '{0}.position', 'pos'), ('ser', 'index_set'): ('ser_index_set', '{0}.index_set', 'str'),
    ('ser', 'degree'): ('ser_degree', '{0}.degree', 'int'), ('ser', 'factor'): ('ser_factor', '{0}.factor', 'fun'),
    ('varf', 'matrix'): ('vf_matrix', '{0}.matrix', 'mat'), ('varf', 'position'): ('vf_position', '{0}.position', 'pos'), ('varf', 'index_set'): ('vf_index_set', '{0}.index_set', 'str'),
    ('varf', 'degree'): ('vf_degree', '{0}.degree', 'int'), ('varf', 'factor'): ('vf_factor', '{0}.factor', 'fun'), ('varf', 'is_sparse'): ('vf_is_sparse', None, 'bool'),
    ('mat', 'shape'): ('mat_shape', 'shapev({0})', 'shape'),
    ('quad', 'do_fourier'): ('quad_do_fourier', 'fourier_flags({0}.position.types)', 'list:int'), ('pos', 'factor'): ('pos_factor', 'pos_factorv({0})', 'mat'), ('op', 'dirs'): ('op_dirs', '{0}.dirs', 'list:int'),
    ('expr', 'args'): ('expr_args', 'argsv({0})', 'list:expr'), ('expr', 'free_symbols'): ('expr_free', 'free({0})', 'syms'), ('fun', 'x_sub'): ('fun_xsub', 'xsubv()', 'list:symb'),
    ('op', 'sym'): ('op_sym', '{0}.sym', 'expr'),
    ('quad', 'factor'): ('quad_factor', '{0}.factor', 'fun'), ('fun', 'sym'): ('fun_sym', '{0}.sym', 'expr'), ('fun', 'dirs'): ('fun_dirs', '{0}.dirs', 'list:int'),
}
# constructors of the package: (name) -> {frozenset of keywords given: (exec function, [keyword order], [types])}; positional parameters are named here
CTOR = {
    'Position': ('pos', ['dim', 'mean', 'cov', 'dirs', 'types'], 'pos_new', {'mean': ('vec', 'list:real'), 'cov': ('mat',), 'dirs': ('list:int',), 'types': ('list:str',), 'dim': ('int',)}),
    'Quad': ('quad', ['nodes', 'weights', 'position', 'factor', 'mean', 'cov', 'dirs', 'types'], 'quad_new', {'nodes': ('list:vec',), 'weights': ('list:vec',), 'position': ('pos',), 'factor': ('fun', 'expr')}),
    'Function': ('fun', ['expr', 'dirs', 'dim'], 'fun_new', {'expr': ('expr', 'int', 'fun'), 'dirs': ('list:int',)}),
    'Operator': ('op', ['expr', 'dirs'], 'op_new', {'expr': ('expr', 'op'), 'dirs': ('list:int',)}),
    'Series': ('ser', ['coeffs', 'position', 'factor', 'index_set', 'significant'], 'ser_new', {'significant': ('int',), 'coeffs': ('vec',), 'position': ('pos',), 'factor': ('fun', 'expr', 'int'), 'index_set': ('str',)}),
    'Varf': ('varf', ['matrix', 'position', 'factor', 'index_set'], 'vf_new', {'matrix': ('mat',), 'position': ('pos',), 'factor': ('fun', 'expr', 'int'), 'index_set': ('str',)}),
}
# default arguments of the constructors above that the translation makes explicit
DEFAULTS = {'Series': {'factor': '1', 'index_set': '"triangle"'}, 'Varf': {'factor': '1', 'index_set': '"triangle"'}}
# wrappers of the C++ library (hermipy.core): parameters, defaults, parameters that only choose the representation of the result
CORE = {
    'core.project': (['inp', 'dim', 'directions', 'index_set'], {'index_set': '"triangle"'}, ()),
    'core.inner': (['s1', 's2', 'd1', 'd2', 'index_set'], {'index_set': '"triangle"'}, ()),
    'core.tensorize': (['inp', 'dim', 'direction', 'sparse', 'index_set'], {'index_set': '"triangle"'}, ('sparse',)),
    'core.discretize': (['function', 'nodes', 'translation', 'dilation'], {}, ()),
    'core.integrate': (['fgrid', 'nodes', 'weights', 'do_fourier'], {}, ()),
    'core.transform': (['degree', 'fgrid', 'nodes', 'weights', 'forward', 'do_fourier', 'index_set'], {'index_set': '"triangle"'}, ()),
    'core.varf': (['degree', 'fgrid', 'nodes', 'weights', 'sparse', 'do_fourier', 'index_set'], {'index_set': '"triangle"'}, ('sparse',)),
    'core.varfd': (['dim', 'degree', 'direction', 'var', 'do_fourier', 'index_set'], {'do_fourier': '0', 'index_set': '"triangle"'}, ()),
    'core.iterator_size': (['dim', 'degree', 'index_set'], {'index_set': '"triangle"'}, ()),
    'core.iterator_index': (['mult_ind', 'index_set'], {'index_set': '"triangle"'}, ()),
    'core.iterator_list_indices': (['dim', 'degree', 'index_set'], {'index_set': '"triangle"'}, ()),
}
# the class a static isinstance test speaks about
CLASSES = {'Position': 'pos', 'Quad': 'quad', 'Function': 'fun', 'int': 'int', 'list': 'list:', 'Series': 'ser', 'Varf': 'varf', 'float': 'real', 'float64': 'real', 'ndarray': 'vec', 'Operator': 'op'}
# decorators: static methods; timing and debug output; the tensorised evaluation of products (its result is compared with the plain one by the bounded group)
DECORATORS = ('staticmethod', 'tensorize_at(1)', 'stats.debug()', 'stats.log_stats()')


def spec_ty(t):
    if t.startswith('dict:'):
        return 'Map<%s, %s>' % tuple(spec_ty(x) for x in t[5:].split(':', 1))
    if t.startswith('list:'):
        return 'Seq<%s>' % spec_ty(t[5:])
    return TY[t][1]


def rust_ty(t):
    if t.startswith('dict:'):
        return 'D<%s, %s>' % tuple(rust_ty(x) for x in t[5:].split(':', 1))
    if t.startswith('list:'):
        return 'L<%s>' % rust_ty(t[5:])
    return TY[t][0]


def clone_of(v, ref):
    return ('l_clone(%s)' if v.ty.startswith('list:') or v.ty == 'mi' else 'd_clone(%s)' if v.ty.startswith('dict:') else rust_ty(v.ty).lower() + '_clone(%s)') % ref


def is_mutable(t):
    return t.startswith(('list:', 'dict:')) or TY[t][2]


# (kind, type, name) -> (exec function, spec template, result type, argument types)
OPS = {
    ('m', 'sfs', 'copy'): ('sfs_copy', '{0}', 'sfs', []),
    ('-', 'sfs', 'sfs'): ('sfs_sub', '{0}.difference({1})', 'sfs', None),
    ('empty', 'sfs'): ('sfs_is_empty', 'sfs_empty({0})', 'bool', None),
    ('empty', 'fs'): ('fs_is_empty', 'fs_empty({0})', 'bool', None),
    ('m', 'fs', 'intersection'): ('fs_intersection', '{0}.intersect({1})', 'fs', ['fs']),
    ('m', 'fs', 'union'): ('fs_union', '{0}.union({1})', 'fs', ['fs']),
    ('m1', 'fs', 'intersection'): ('fs_intersection_l', '{0}.intersect({1}.to_set())', 'fs', ['list:int']),
    ('&', 'fs', 'fs'): ('fs_intersection', '{0}.intersect({1})', 'fs', None),
    ('|', 'fs', 'fs'): ('fs_union', '{0}.union({1})', 'fs', None),
    ('m', 'fs', 'issubset'): ('fs_issubset', '{0}.subset_of({1})', 'bool', ['fs']),
    ('m', 'fs', 'isdisjoint'): ('fs_isdisjoint', '{0}.disjoint({1})', 'bool', ['fs']),
    ('list', 'sfs'): ('sfs_list', None, 'list:fs', None),
    ('iter', 'sfs'): ('sfs_list', None, 'list:fs', None),
    ('==', 'sfs', 'sfs'): ('sfs_eq', '({0} == {1})', 'bool', None),
    ('==', 'fs', 'fs'): ('fs_eq', '({0} == {1})', 'bool', None),
    ('in', 'fs', 'sfs'): ('sfs_contains', '{1}.contains({0})', 'bool', None),
    ('==', 'int', 'int'): ('pint_eq', '({0} == {1})', 'bool', None), ('==', 'real', 'real'): ('preal_eq', '({0} == {1})', 'bool', None), ('==', 'str', 'str'): ('pstr_eq', '({0} == {1})', 'bool', None),
    ('<=', 'int', 'int'): ('pint_le', '({0} <= {1})', 'bool', None), ('<', 'int', 'int'): ('pint_lt', '({0} < {1})', 'bool', None),
    ('>=', 'int', 'int'): ('pint_ge', '({0} >= {1})', 'bool', None), ('>', 'int', 'int'): ('pint_gt', '({0} > {1})', 'bool', None),
    ('+', 'int', 'int'): ('pint_add', '({0} + {1})', 'int', None), ('-', 'int', 'int'): ('pint_sub', '({0} - {1})', 'int', None),
    ('==', 'pos', 'pos'): ('pos_eq', 'pos_close({0}, {1})', 'bool', None), ('==', 'fun', 'fun'): ('fun_eq', '({0} == {1})', 'bool', None), ('==', 'shape', 'shape'): ('shape_eq', '({0} == {1})', 'bool', None),
    ('+', 'vec', 'vec'): ('vec_add', 'vadd({0}, {1})', 'vec', None), ('-', 'vec', 'vec'): ('vec_sub', 'vadd({0}, vscale({1}, -1real))', 'vec', None),
    ('+', 'vec', 'real'): ('vec_addr', 'vshift({0}, {1})', 'vec', None), ('+', 'vec', 'int'): ('vec_addi', 'vshift({0}, {1} as real)', 'vec', None),
    ('*', 'vec', 'real'): ('vec_mulr', 'vscale({0}, {1})', 'vec', None), ('*', 'vec', 'int'): ('vec_muli', 'vscale({0}, {1} as real)', 'vec', None), ('*', 'real', 'vec'): ('vec_rmulr', 'vscale({1}, {0})', 'vec', None),
    ('/', 'vec', 'real'): ('vec_divr', 'vdiv({0}, {1})', 'vec', None), ('/', 'vec', 'int'): ('vec_divi', 'vdiv({0}, {1} as real)', 'vec', None),
    ('+', 'mat', 'mat'): ('mat_add', 'madd({0}, {1})', 'mat', None), ('-', 'mat', 'mat'): ('mat_sub', 'madd({0}, mscale({1}, -1real))', 'mat', None),
    ('+', 'mat', 'real'): ('mat_addr', 'mshift({0}, {1})', 'mat', None), ('+', 'mat', 'int'): ('mat_addi', 'mshift({0}, {1} as real)', 'mat', None),
    ('*', 'mat', 'real'): ('mat_mulr', 'mscale({0}, {1})', 'mat', None), ('*', 'mat', 'int'): ('mat_muli', 'mscale({0}, {1} as real)', 'mat', None),
    ('*', 'real', 'int'): ('preal_muli', '({0} * ({1} as real))', 'real', None), ('*', 'int', 'int'): ('pint_mul', '({0} * {1})', 'int', None),
    ('m', 'mat', 'dot'): ('mat_dot', 'matvec({0}, {1})', 'vec', ['vec']), ('m', 'mat', 'copy'): ('pmat_clone', '{0}', 'mat', []), ('m', 'vec', 'copy'): ('pvec_clone', '{0}', 'vec', []),
    ('m', 'fun', 'ccode'): ('fun_ccode', 'ccodev({0})', 'str', []), ('m', 'pos', 'weight'): ('pos_weight', 'pos_weightv({0})', 'expr', []),
    ('m', 'op', 'map'): ('op_map', 'op_mapv({0}, {1})', 'op', ['fun']), ('m', 'op', 'split'): ('op_split', 'op_splitv({0})', 'dict:mi:fun', []),
    ('f', 'la.eig', 'mat'): ('np_eigval', None, 'vec', None), ('f', 'la.inv', 'mat'): ('np_inv', 'minv({0})', 'mat', None), ('f', 'la.norm', 'mat', 'int'): ('np_norm', 'normm({0}, {1})', 'real', None),
    ('f', 'np.sqrt', 'real'): ('np_sqrt', 'rsqrt({0})', 'real', None), ('/', 'mat', 'real'): ('mat_divr', 'mdiv({0}, {1})', 'mat', None), ('f', 'np.diag', 'mat'): ('np_diagv', 'diagv({0})', 'vec', None), ('f', 'np.diag', 'vec'): ('np_diagm', 'diagm({0})', 'mat', None),
    ('m1', 'mat', 'dot'): ('mat_matmul', 'matmul({0}, {1})', 'mat', ['mat']), ('*', 'mat', 'mat'): ('mat_mul', 'mmul({0}, {1})', 'mat', None), ('>', 'real', 'real'): ('preal_gt', '({0} > {1})', 'bool', None), ('<', 'real', 'real'): ('preal_lt', '({0} < {1})', 'bool', None),
    ('==', 'vec', 'int'): ('vec_eqi', 'veqi({0}, {1})', 'bvec', None), ('*', 'real', 'bvec'): ('bvec_rmul', 'bscale({1}, {0})', 'vec', None), ('/', 'vec', 'vec'): ('vec_divv', 'vdivv({0}, {1})', 'vec', None), ('*', 'vec', 'vec'): ('vec_mulv', 'vmulv({0}, {1})', 'vec', None),
    ('iter', 'mat'): ('mat_rows', '{0}', 'list:vec', None), ('+', 'nv', 'varf'): ('nv_add', None, 'nv', None),
    ('f', 'core.discretize', 'str', 'mat', 'vec', 'mat'): ('core_discretize', 'core_discretizev({0}, {1}, {2}, {3})', 'vec', None),
    ('f', 'core.integrate', 'vec', 'mat', 'mat', 'list:int'): ('core_integrate', 'core_integratev({0}, {1}, {2}, {3})', 'real', None),
    ('f', 'core.transform', 'int', 'vec', 'mat', 'mat', 'bool', 'list:int', 'str'): ('core_transform', 'core_transformv({0}, {1}, {2}, {3}, {4}, {5}, {6})', 'vec', None),
    ('f', 'core.varf', 'int', 'vec', 'mat', 'mat', 'list:int', 'str'): ('core_varf', 'core_varfv({0}, {1}, {2}, {3}, {4}, {5})', 'mat', None),
    ('f', 'core.varfd', 'int', 'int', 'int', 'mat', 'int', 'str'): ('core_varfd', 'core_varfdv({0}, {1}, {2}, {3}, {4}, {5})', 'mat', None),
    ('/', 'expr', 'expr'): ('expr_div', 'ediv({0}, {1})', 'expr', None),
    ('f', 'set', 'list:int'): ('fs_of', '{0}.to_set()', 'fs', None), ('f', 'frozenset', 'list:int'): ('fs_of', '{0}.to_set()', 'fs', None), ('list', 'fs'): ('fs_list', 'fs_enum({0})', 'list:int', None),
    ('f', 'np.hstack', 'vec', 'vec'): ('vec_cat', '({0} + {1})', 'vec', None), ('f', 'np.ix_', 'list:int', 'list:int'): ('np_ix', None, 'ix', None),
    ('f', 'core.project', 'vec', 'int', 'list:int', 'str'): ('core_project_vec', 'core_projectv({0}, {1}, {2}, {3})', 'vec', None),
    ('f', 'core.project', 'mat', 'int', 'list:int', 'str'): ('core_project_mat', 'core_projectm({0}, {1}, {2}, {3})', 'mat', None),
    ('f', 'core.inner', 'vec', 'vec', 'list:int', 'list:int', 'str'): ('core_inner', 'core_innerv({0}, {1}, {2}, {3}, {4})', 'vec', None),
    ('f', 'core.tensorize', 'dict:fs:mat', 'str'): ('core_tensorize_mat', 'core_tensorizem({0}, {1})', 'mat', None),
    ('f', 'core.iterator_size', 'int', 'int', 'str'): ('core_size', 'nsize({0}, {1}, {2})', 'int', None),
    ('f', 'core.iterator_index', 'list:int', 'str'): ('core_index', 'core_indexv({0}, {1})', 'int', None),
    ('f', 'core.iterator_list_indices', 'int', 'int', 'str'): ('core_list', 'core_listv({0}, {1}, {2})', 'list:list:int', None),
    ('-', 'expr', 'expr'): ('expr_sub', 'esub({0}, {1})', 'expr', None), ('neg', 'expr'): ('expr_neg', 'eneg({0})', 'expr', None),
    ('m', 'expr', 'doit'): ('expr_doit', '{0}', 'expr', []), ('m', 'expr', 'expand'): ('expr_expand', '{0}', 'expr', []), ('m', 'expr', 'subs'): ('expr_subs', 'esubs({0}, {1}, {2})', 'expr', ['expr', 'expr']),
    ('*', 'expr', 'fun'): ('fun_rmul', 'fun_rmulv({1}, {0})', 'fun', None), ('unknown', 'list:symb'): ('op_unknown', 'eunk({0})', 'expr', None),
    ('*', 'expr', 'expr'): ('expr_mul', 'emul({0}, {1})', 'expr', None),
    ('f', 'np.diag', 'list:real'): ('np_diag', 'diagm({0})', 'mat', None), ('f', 'np.zeros', 'int'): ('np_zeros', 'zerov({0})', 'vec', None),
    ('f', 'np.zeros', 'int', 'int'): ('np_zeros2', 'zerom({0}, {1})', 'mat', None),
    ('f', 'sym.Integer', 'int'): ('sym_integer', 'eint({0})', 'expr', None),
    ('f', 'sympy.Integer', 'int'): ('sym_integer', 'eint({0})', 'expr', None), ('+', 'expr', 'expr'): ('expr_add', 'eadd({0}, {1})', 'expr', None),
    ('m', 'syms', 'intersection'): ('syms_inter', '{0}.intersect({1}.to_set())', 'syms', ['list:symb']), ('iter', 'syms'): ('syms_list', None, 'list:symb', None),
    ('m1', 'fs', 'union'): ('fs_union_l', '{0}.union({1}.to_set())', 'fs', ['list:int']), ('m1', 'fs', 'issubset'): ('fs_issubset_l', '{0}.subset_of({1}.to_set())', 'bool', ['list:int']),
    ('f', 'sorted', 'fs'): ('py_sorted_fs', None, 'list:int', None),
    ('f', 'range', 'int'): ('py_range', 'rangev({0})', 'list:int', None),
    ('f', 'sorted', 'list:int'): ('py_sorted', None, 'list:int', None),
    ('m', 'fun', 'project'): ('fun_project', 'fun_projected({0}, {1})', 'fun', ['list:int']), ('m1', 'fun', 'project'): ('fun_project1', 'fun_projected({0}, seq![{1}])', 'fun', ['int']),
}
# mutating methods: (type, name) -> (exec function, argument types)
MUT = {('sfs', 'remove'): ('sfs_remove', ['fs']), ('sfs', 'add'): ('sfs_add', ['fs']), ('sfs', 'discard'): ('sfs_discard', ['fs'])}
EMPTY = ('set()', 'frozenset()')


class Val:
    def __init__(self, ex, ty, spec=None, fresh=True):
        self.ex, self.ty, self.spec, self.fresh = ex, ty, spec, fresh


def rewrite(fn):
    """filter(lambda x: c, l) as a comprehension; an enumerate() given a name that the next statement uses once, in place"""
    fn = copy.deepcopy(fn)

    class F(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Name) and n.func.id == 'filter' and len(n.args) == 2 and not n.keywords and isinstance(n.args[0], ast.Lambda) and len(n.args[0].args.args) == 1 and not n.args[0].args.defaults:
                x = n.args[0].args.args[0].arg
                return ast.fix_missing_locations(ast.copy_location(ast.ListComp(ast.Name(x, ast.Load()), [ast.comprehension(ast.Name(x, ast.Store()), n.args[1], [n.args[0].body], 0)]), n))
            return n
    fn = F().visit(fn)

    def cont(body):
        """`if c: A; continue` followed by the rest of the loop body, as `if c: A else: rest`"""
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Continue) and not s.orelse:
                s.body = s.body[:-1] or [ast.copy_location(ast.Pass(), s)]
                s.orelse = cont(body[i + 1:])
                return body[:i + 1]
        return body
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.While)):
            x.body = cont(x.body)
    for blk in [getattr(x, f) for x in ast.walk(fn) for f in ('body', 'orelse') if isinstance(getattr(x, f, None), list)]:
        for i in range(len(blk) - 1, 0, -1):
            a = blk[i - 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == 'enumerate':
                nm = a.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                here = [x for x in ast.walk(blk[i]) if isinstance(x, ast.Name) and x.id == nm]
                if len(uses) == 2 and len(here) == 1 and isinstance(blk[i], ast.Assign):
                    class S(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return a.value if n.id == nm else n
                    blk[i] = S().visit(blk[i])
                    del blk[i - 1]
    return fn


class Tr:
    def __init__(self, fn, sc, env):
        """fn: ast.FunctionDef, sc: sidecar, env: other functions {python name: (rust name, [param types], return type)}"""
        fn = rewrite(fn)
        self.fn, self.sc, self.env = fn, sc, env
        self.loc = dict(x.split('=') for x in sc.locals if '=' in x)
        self.out, self.ind = [], 1
        self.vars = {}          # name -> (rust name, type, 'param'|'local')
        self.nloop, self.ntmp, self.nret, self.nany = 0, 0, 0, 0
        self.calls = set()
        self.scopes = [set()]
        self.last = [x.body[-1] for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While))]
        self.loops_seen = []
        self.prefs = set()
        self.level = {}         # indentation of the block a name was first bound in
        self.hoist = {}         # names declared before a conditional that binds them in both branches
        # names whose container is changed in place somewhere in the function
        self.mutated = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ('append', 'remove', 'add', 'discard', 'extend', 'insert', 'pop', 'clear', 'sort', 'reverse', 'update'):
                self.mutated.add(x.func.value.id)
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                r = x
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                self.mutated.add(r.id if isinstance(r, ast.Name) else '?')

    # -------------------------------------------------------------------------------------------- output
    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def hint(self, a):
        for l in self.sc.hints.get(a, []):
            self.emit('proof { ' + l.strip() + ' }' if not l.strip().startswith(('let ghost', 'assert', 'proof')) else l.strip())

    def hint_block(self, a):
        ls = self.sc.hints.get(a, [])
        if ls:
            gh = [l for l in ls if l.strip().startswith('let ghost')]
            pr = [l for l in ls if not l.strip().startswith('let ghost')]
            for l in gh:
                self.emit(l.strip())
            if pr:
                self.emit('proof {')
                for l in pr:
                    self.emit('    ' + l.strip())
                self.emit('}')

    def tmp(self):
        self.ntmp += 1
        return 't_%d' % self.ntmp

    # -------------------------------------------------------------------------------------------- expressions
    def un(self, n):
        raise Unsupported('Python: %s at line %d' % (ast.unparse(n)[:80] if n is not None else '?', getattr(n, 'lineno', 0)))

    def ref(self, v):
        """argument position: by reference unless bool"""
        if v.ty == 'bool':
            return v.ex
        return v.ex if v.ex.startswith('&') or v.ex in self.prefs else '&' + v.ex

    def lookup(self, n):
        if n.id not in self.vars:
            self.un(n)
        rn, t, kind = self.vars[n.id]
        if t.startswith('const:'):
            return Val(t[6:], 'bool', t[6:])
        sp = '%s.v()' % rn if t != 'bool' else rn
        v = Val(rn, t, sp, fresh=False)
        v.root = n.id
        return v

    def op(self, key, args, n):
        o = OPS.get(key)
        if o is None:
            self.un(n)
        f, sp, rt, _ = o
        spec = sp.format(*[a.spec for a in args]) if sp and all(a.spec is not None for a in args) else None
        return Val('%s(%s)' % (f, ', '.join(self.ref(a) for a in args)), rt, spec)

    def ex(self, n):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            self.un(n)
        return m(n)

    def x_Name(self, n):
        return self.lookup(n)

    def x_Constant(self, n):
        if isinstance(n.value, bool):
            return Val('true' if n.value else 'false', 'bool', 'true' if n.value else 'false')
        if isinstance(n.value, int):
            return Val('pint(%d)' % n.value, 'int', '%dint' % n.value)
        if isinstance(n.value, float):
            return Val('preal_lit("%r")' % n.value, 'real', 'flt("%r"@)' % n.value)
        if isinstance(n.value, str) and re.match(r'^[A-Za-z_]*$', n.value):
            return Val('pstr("%s")' % n.value, 'str', '"%s"@' % n.value)
        self.un(n)

    def x_Attribute(self, n):
        if ast.unparse(n) in ('func.Function.x_sub', 'Function.x_sub') and ast.unparse(n).split('.')[0] not in self.vars:
            return Val('class_xsub()', 'list:symb', 'xsubv()')
        v = self.ex(n.value)
        o = ATTR.get((v.ty, n.attr))
        if o is None:
            self.un(n)
        r = Val('%s(%s)' % (o[0], self.ref(v)), o[2], o[1].format(v.spec) if v.spec and o[1] else None, fresh=False)
        r.root = getattr(v, 'root', None)
        return r

    def x_IfExp(self, n):
        c = self.ex(n.test)
        if c.ty != 'bool':
            self.un(n)
        if c.ex in ('true', 'false'):
            return self.ex(n.body if c.ex == 'true' else n.orelse)
        t = self.tmp()
        m = len(self.out)
        self.emit('let %s;' % t)
        self.emit('if %s {' % c.ex)
        self.ind += 1
        a = self.unrep(self.ex(n.body))
        self.emit('%s = %s;' % (t, self.value(a, n)))
        self.ind -= 1
        self.emit('} else {')
        self.ind += 1
        b = self.unrep(self.ex(n.orelse))
        self.emit('%s = %s;' % (t, self.value(b, n)))
        self.ind -= 1
        self.emit('}')
        if a.ty != b.ty:
            self.un(n)
        return Val(t, a.ty, '%s.v()' % t if a.ty != 'bool' else t)

    def unrep(self, v):
        return Val('py_setting()', 'bool') if v.ty == 'rep' else v

    def value(self, v, n, name=None):
        """an owned Rust value; a mutable container may be shared only if nobody changes it in this function"""
        if v.fresh:
            return v.ex
        if v.ty == 'bool':
            return v.ex
        if is_mutable(v.ty) and (getattr(v, 'root', None) is None or v.root in self.mutated or (name is not None and name in self.mutated)):
            raise Unsupported('Python: %s aliases a mutable object (line %d)' % (name or ast.unparse(n)[:40], n.lineno))
        return clone_of(v, self.ref(v))

    def x_List(self, n):
        vs = [self.ex(e) for e in n.elts]
        if not vs:
            t = self.want
            if not t or not t.startswith('list:'):
                self.un(n)
            return Val('l_new::<%s>()' % rust_ty(t[5:]), t, 'Seq::<%s>::empty()' % spec_ty(t[5:]))
        if len({v.ty for v in vs}) != 1:
            self.un(n)
        t = self.tmp()
        self.emit('let mut %s = l_new::<%s>();' % (t, rust_ty(vs[0].ty)))
        for v in vs:
            self.emit('l_push(&mut %s, %s);' % (t, self.value(v, n)))
        if all(v.spec for v in vs):
            self.emit('proof { assert(%s.v() =~= seq![%s]); }' % (t, ', '.join(v.spec for v in vs)))
        return Val(t, 'list:' + vs[0].ty, '%s.v()' % t)

    def x_ListComp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async:
            self.un(n)
        g = n.generators[0]
        ei = None
        if isinstance(g.target, ast.Tuple):
            if not self.is_enum(g.target, g.iter) or g.ifs:
                self.un(n)
            ei = g.target.elts[0].id
            g = ast.comprehension(g.target.elts[1], g.iter.args[0], [], 0)
        if not isinstance(g.target, ast.Name):
            self.un(n)
        ident = isinstance(n.elt, ast.Name) and n.elt.id == g.target.id
        if len(g.ifs) > 1 or g.ifs and not ident:
            self.un(n)
        it = self.ex(g.iter)
        if not it.ty.startswith('list:'):
            it = self.op(('iter', it.ty), [it], n)
        self.nany += 1
        b, nm = 'comp%d' % self.nany, g.target.id
        et = it.ty[5:]
        saved, savedi = self.vars.get(nm), self.vars.get(ei)
        self.emit('let %s_l = %s;' % (b, it.ex if it.fresh else 'l_clone(%s)' % self.ref(it)))
        # specification with the element replaced by a bound variable
        mark, keep = len(self.out), (self.ntmp, self.nany)
        self.vars[nm] = ('ELEM', et, 'local')
        if ei:
            self.vars[ei] = ('EIDX', 'int', 'local')
        e = self.ex(g.ifs[0] if g.ifs else n.elt)
        sp, rt = e.spec, e.ty
        del self.out[mark:]
        self.ntmp, self.nany = keep
        if sp is None or g.ifs and rt != 'bool':
            self.un(n)
        if g.ifs:
            rt = et
            self.emit('let ghost %s_c = |e: %s| %s;' % (b, spec_ty(et), sp.replace('ELEM.v()', 'e')))
        self.emit('let mut %s = l_new::<%s>();' % (b, rust_ty(rt)))
        self.emit('let mut %s_k: usize = 0;' % b)
        self.emit('while %s_k < l_len(&%s_l)' % (b, b))
        if g.ifs:
            self.emit('    invariant %s_k <= %s_l.v().len(), %s.v() == fil(%s_l.v(), %s_k as int, %s_c),' % (b, b, b, b, b, b))
        else:
            self.emit('    invariant %s_k <= %s_l.v().len(), %s.v().len() == %s_k, forall|j: int| 0 <= j < %s_k ==> #[trigger] %s.v()[j] == %s,' % (b, b, b, b, b, b, sp.replace('ELEM.v()', '%s_l.v()[j]' % b).replace('EIDX.v()', 'j')))
        self.emit('{')
        self.ind += 1
        self.emit('let %s = l_get(&%s_l, %s_k);' % (nm, b, b))
        self.vars[nm] = (nm, et, 'local')
        if ei:
            self.emit('let %s = pint_of(%s_k);' % (ei, b))
            self.vars[ei] = (ei, 'int', 'local')
        self.hint_block('%s.begin' % b)
        if g.ifs:
            c = self.ex(g.ifs[0])
            self.emit('if %s { l_push(&mut %s, %s); }' % (c.ex, b, self.value(self.lookup(g.target), n)))
        else:
            self.emit('l_push(&mut %s, %s);' % (b, self.value(self.ex(n.elt), n)))
        self.emit('%s_k = %s_k + 1;' % (b, b))
        self.ind -= 1
        self.emit('}')
        if g.ifs:
            self.emit('proof {')
            self.emit('    lem_fil(%s_l.v(), %s_l.v().len() as int, %s_c);' % (b, b, b))
            self.emit('    assert forall|x: %s| #[trigger] %s.v().contains(x) <==> %s_l.v().contains(x) && %s by { assert(%s_c(x) == %s); }' % (spec_ty(et), b, b, sp.replace('ELEM.v()', 'x'), b, sp.replace('ELEM.v()', 'x')))
            self.emit('}')
        if ei:
            if savedi:
                self.vars[ei] = savedi
            else:
                del self.vars[ei]
        if saved:
            self.vars[nm] = saved
        else:
            del self.vars[nm]
        r = Val(b, 'list:' + rt, '%s.v()' % b)
        self.hint_block('%s.after' % b)
        return r

    def is_enum(self, target, it):
        return isinstance(target, ast.Tuple) and len(target.elts) == 2 and all(isinstance(x, ast.Name) for x in target.elts) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and len(it.args) == 1 and not it.keywords

    def x_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            v = self.ex(n.operand)
            if v.ty != 'bool':
                self.un(n)
            if v.ex in ('true', 'false'):
                r = 'false' if v.ex == 'true' else 'true'
                return Val(r, 'bool', r)
            return Val('!(%s)' % v.ex, 'bool', '!(%s)' % v.spec if v.spec else None)
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and type(n.operand.value) is int:
            return Val('pint(-%d)' % n.operand.value, 'int', '(-%dint)' % n.operand.value)
        if isinstance(n.op, ast.USub):
            v = self.ex(n.operand)
            return self.op(('neg', v.ty), [v], n)
        self.un(n)

    def x_BoolOp(self, n):
        w = 'true' if isinstance(n.op, ast.Or) else 'false'
        t, specs = None, []
        t = self.tmp()
        for i, e in enumerate(n.values):
            if i:
                self.emit('if %s%s {' % ('!' if w == 'true' else '', t))
                self.ind += 1
            v = self.ex(e)
            if v.ty != 'bool':
                self.un(n)
            specs.append(v.spec)
            self.emit('%s%s = %s;' % ('let mut ' if not i else '', t, v.ex))
        for i in range(len(n.values) - 1):
            self.ind -= 1
            self.emit('}')
        j = ' || ' if w == 'true' else ' && '
        return Val(t, 'bool', '(' + j.join(specs) + ')' if all(specs) else None)

    def x_Compare(self, n):
        if len(n.ops) != 1:
            self.un(n)
        op, a, b = n.ops[0], n.left, n.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(b, ast.Constant) and b.value is None:
            if self.ex(a).ty == 'rep':
                return Val('py_setting()', 'bool')
            r = 'true' if (self.ex(a).ty == 'none') == isinstance(op, ast.Is) else 'false'
            return Val(r, 'bool', r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if isinstance(b, ast.Dict) and not b.keys:
                v = self.ex(a)
                if not v.ty.startswith('dict:'):
                    self.un(n)
                r = Val('d_is_empty(%s)' % self.ref(v), 'bool', '(%s.dom() =~= Set::empty())' % v.spec if v.spec else None)
            elif ast.unparse(b) in EMPTY or ast.unparse(a) in EMPTY:
                v = self.ex(a if ast.unparse(b) in EMPTY else b)
                r = self.op(('empty', v.ty), [v], n)
            else:
                x, y = self.ex(a), self.ex(b)
                if x.ty == y.ty and x.ty.startswith('list:'):
                    r = Val('l_eq(%s, %s)' % (self.ref(x), self.ref(y)), 'bool', '(%s == %s)' % (x.spec, y.spec) if x.spec and y.spec else None)
                else:
                    r = self.op(('==', x.ty, y.ty), [x, y], n)
            return r if not neg else Val('!' + r.ex, 'bool', '!(%s)' % r.spec if r.spec else None)
        cmp_ = {ast.LtE: '<=', ast.Lt: '<', ast.GtE: '>=', ast.Gt: '>'}.get(type(op))
        if cmp_:
            x, y = self.ex(a), self.ex(b)
            return self.op((cmp_, x.ty, y.ty), [x, y], n)
        if isinstance(op, (ast.In, ast.NotIn)):
            x, y = self.ex(a), self.ex(b)
            if y.ty == 'list:' + x.ty:
                r = Val('l_contains(%s, %s)' % (self.ref(y), self.ref(x)), 'bool', '%s.contains(%s)' % (y.spec, x.spec) if x.spec and y.spec else None)
            else:
                r = Val('d_has(%s, %s)' % (self.ref(y), self.ref(x)), 'bool', '%s.dom().contains(%s)' % (y.spec, x.spec) if x.spec and y.spec else None) if y.ty.startswith('dict:' + x.ty + ':') else self.op(('in', x.ty, y.ty), [x, y], n)
            return r if isinstance(op, ast.In) else Val('!' + r.ex, 'bool', '!(%s)' % r.spec if r.spec else None)
        self.un(n)

    def x_BinOp(self, n):
        s = {ast.Sub: '-', ast.Add: '+', ast.Mult: '*', ast.Div: '/', ast.BitAnd: '&', ast.BitOr: '|'}.get(type(n.op))
        if s == '*' and isinstance(n.left, ast.List) and len(n.left.elts) == 1:
            k = self.ex(n.right)
            if k.ty != 'int':
                self.un(n)
            if self.want and self.want.startswith('list:') and ast.unparse(n.left) == '[0]' and self.want != 'list:int':
                # placeholders to be overwritten: entries of another type, unspecified here
                return Val('l_holes::<%s>(%s)' % (rust_ty(self.want[5:]), self.ref(k)), self.want)
            e = self.ex(n.left.elts[0])
            return Val('l_repeat(%s, %s)' % (self.ref(e), self.ref(k)), 'list:' + e.ty, 'repv(%s, %s)' % (e.spec, k.spec) if e.spec and k.spec else None)
        x, y = self.ex(n.left), self.ex(n.right)
        if s == '+' and x.ty == y.ty and x.ty.startswith('list:'):
            return Val('l_concat(%s, %s)' % (self.ref(x), self.ref(y)), x.ty, '(%s + %s)' % (x.spec, y.spec) if x.spec and y.spec else None)
        dunder = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__'}.get(s)
        e = self.env.get((x.ty, dunder, x.ty, y.ty))
        if e:
            return Val('%s(%s, %s)' % (e[0], self.ref(x), self.ref(y)), e[2])
        return self.op((s, x.ty, y.ty), [x, y], n)

    def x_Dict(self, n):
        if self.want and self.want.startswith('dict:') and not n.keys:
            return Val('d_new::<%s, %s>()' % tuple(rust_ty(x) for x in self.want[5:].split(':', 1)), self.want, 'Map::<%s, %s>::empty()' % tuple(spec_ty(x) for x in self.want[5:].split(':', 1)))
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) and isinstance(v, ast.Constant) for k, v in zip(n.keys, n.values)):
            return Val('pkw()', 'kw', '0int')        # keyword arguments of a numpy call
        self.un(n)

    def x_Subscript(self, n):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and ast.unparse(n.value) in ('rc.settings', 'hm.settings', 'settings') and n.slice.value in ('sparse', 'tensorize', 'cache', 'debug'):
            return Val('py_setting()', 'bool')
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and all(isinstance(e, ast.Slice) for e in n.slice.elts):
            m = self.ex(n.value)
            u = []
            for e in n.slice.elts:
                if m.ty != 'mat' or e.step or not e.upper or e.lower and not (isinstance(e.lower, ast.Constant) and e.lower.value == 0):
                    self.un(n)
                u.append(self.ex(e.upper))
            if [x.ty for x in u] != ['int', 'int']:
                self.un(n)
            r = Val('mat_block(%s, %s, %s)' % (self.ref(m), self.ref(u[0]), self.ref(u[1])), 'mat', 'blockv(%s, %s, %s)' % (m.spec, u[0].spec, u[1].spec) if m.spec and u[0].spec and u[1].spec else None, fresh=False)
            r.root = getattr(m, 'root', None)
            return r
        if isinstance(n.slice, ast.Call) and ast.unparse(n.slice.func) == 'np.ix_' and len(n.slice.args) == 2 and not n.slice.keywords:
            m, i, j = self.ex(n.value), self.ex(n.slice.args[0]), self.ex(n.slice.args[1])
            if (m.ty, i.ty, j.ty) != ('mat', 'list:int', 'list:int'):
                self.un(n)
            return Val('mat_pick(%s, %s, %s)' % (self.ref(m), self.ref(i), self.ref(j)), 'mat', 'pickm(%s, %s, %s)' % (m.spec, i.spec, j.spec) if m.spec and i.spec and j.spec else None)
        if isinstance(n.value, ast.Subscript) and not isinstance(n.slice, ast.Slice):
            m = self.ex(n.value.value)
            if m.ty == 'mat' and not isinstance(n.value.slice, (ast.Slice, ast.Tuple)):
                i, j = self.ex(n.value.slice), self.ex(n.slice)
                if i.ty != 'int' or j.ty != 'int':
                    self.un(n)
                return Val('mat_get(%s, %s, %s)' % (self.ref(m), self.ref(i), self.ref(j)), 'real', '%s[%s][%s]' % (m.spec, i.spec, j.spec) if m.spec and i.spec and j.spec else None)
        v = self.ex(n.value)
        if v.ty.startswith('dict:') and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            i = self.ex(n.slice)
            kt, vt = v.ty[5:].split(':', 1)
            if i.ty != kt or is_mutable(vt):
                self.un(n)
            return Val('d_get(%s, %s)' % (self.ref(v), self.ref(i)), vt, '%s[%s]' % (v.spec, i.spec) if v.spec and i.spec else None)
        if isinstance(n.slice, ast.Slice) and v.ty == 'vec':
            if n.slice.step or not n.slice.upper or n.slice.lower and not (isinstance(n.slice.lower, ast.Constant) and n.slice.lower.value == 0):
                self.un(n)
            u = self.ex(n.slice.upper)
            if u.ty != 'int':
                self.un(n)
            r = Val('vec_take(%s, %s)' % (self.ref(v), self.ref(u)), 'vec', 'takev(%s, %s)' % (v.spec, u.spec) if v.spec and u.spec else None, fresh=False)
            r.root = getattr(v, 'root', None)
            return r
        if v.ty == 'vec' and isinstance(n.slice, ast.Constant) and type(n.slice.value) is int and n.slice.value >= 0:
            return Val('vec_get(%s, &pint(%d))' % (self.ref(v), n.slice.value), 'real', '%s[%d]' % (v.spec, n.slice.value) if v.spec else None)
        if isinstance(n.slice, ast.Slice):
            lo = n.slice.lower
            if not v.ty.startswith('list:') or n.slice.upper or n.slice.step or not isinstance(lo, ast.Constant) or not isinstance(lo.value, int) or lo.value < 0:
                self.un(n)
            return Val('l_from(%s, %dusize)' % (self.ref(v), lo.value), v.ty, 'fromv(%s, %d)' % (v.spec, lo.value) if v.spec else None)
        if v.ty == 'mi' and not isinstance(n.slice, (ast.Slice, ast.Tuple)):
            i = self.ex(n.slice)
            if i.ty != 'int':
                self.un(n)
            return Val('l_at(%s, %s)' % (self.ref(v), self.ref(i)), 'int', '%s[%s]' % (v.spec, i.spec) if v.spec and i.spec else None)
        if not isinstance(n.slice, (ast.Constant, ast.Tuple)) and (v.ty in ('vec', 'mat') or v.ty.startswith('list:')):
            i = self.ex(n.slice)
            if i.ty == 'list:int' and v.ty == 'vec':        # a new array
                return Val('vec_pick(%s, %s)' % (self.ref(v), self.ref(i)), 'vec', 'pickv(%s, %s)' % (v.spec, i.spec) if v.spec and i.spec else None)
            if i.ty != 'int':
                self.un(n)
            f, t = ('vec_get', 'real') if v.ty == 'vec' else ('mat_row', 'vec') if v.ty == 'mat' else ('l_at', v.ty[5:])
            r = Val('%s(%s, %s)' % (f, self.ref(v), self.ref(i)), t, '%s[%s]' % (v.spec, i.spec) if v.spec and i.spec else None, fresh=not is_mutable(t))
            r.root = getattr(v, 'root', None)
            return r
        if v.ty.startswith('list:') and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and n.slice.value >= 0:
            i = n.slice.value
            if not v.fresh and isinstance(n.value, ast.Name):
                r = Val('l_get(%s, %dusize)' % (self.ref(v), i), v.ty[5:], '%s[%d]' % (v.spec, i), fresh=not is_mutable(v.ty[5:]))
                r.root = n.value.id
                return r
            t = self.tmp()
            self.emit('let %s = %s;' % (t, v.ex))
            return Val('l_get(&%s, %dusize)' % (t, i), v.ty[5:], '%s.v()[%d]' % (t, i))
        self.un(n)

    def ctor(self, n, c):
        ty, order, fn, ptys = c
        given = {}
        for nm, a in zip(order, n.args):
            given[nm] = a
        for k in n.keywords:
            if k.arg is None or k.arg in given or k.arg not in order:
                self.un(n)
            given[k.arg] = k.value
        if any(isinstance(a, ast.Starred) for a in n.args) or len(n.args) > len(order):
            self.un(n)
        for nm, d in DEFAULTS.get({v[2]: k for k, v in CTOR.items()}[fn], {}).items():
            if nm not in given:
                given[nm] = ast.copy_location(ast.parse(d, mode='eval').body, n)
        args, specs = [], []
        for nm in order:
            if nm not in given:
                continue
            v = self.ex(given[nm])
            if v.ty not in ptys.get(nm, ()):
                self.un(n)
            if (ty, nm) == ('op', 'expr') and v.ty == 'op':
                return Val('op_clone(%s)' % self.ref(v), 'op', v.spec)
            if (ty, nm) == ('fun', 'expr') and v.ty == 'fun':       # a Function is kept as it is
                return Val('fun_clone(%s)' % self.ref(v), 'fun', v.spec)
            if (ty, nm, v.ty) == ('fun', 'expr', 'int'):
                v = Val('sym_integer(%s)' % self.ref(v), 'expr', 'eint(%s)' % v.spec)
            specs.append(v.spec)
            if is_mutable(v.ty) and not v.fresh and getattr(v, 'root', '?') in self.mutated and not self.in_return:
                raise Unsupported('Python: %s is kept by an object and changed (line %d)' % (ast.unparse(given[nm]), n.lineno))
            a = self.ref(v)
            if nm == 'factor' and ty in ('ser', 'varf'):
                # Function(factor, dirs=position.dirs): a Function is kept as it is
                e = 'fun_clone(%s)' % a if v.ty == 'fun' else 'fun_new__expr_dirs(%s, pos_dirs(&%s))' % ('expr_clone(%s)' % a if v.ty == 'expr' else 'sym_integer(%s)' % a, dict(args)['position'])
                args.append((nm, e))
                continue
            args.append((nm, 'vec_of(%s)' % a if (v.ty, ty) == ('list:real', 'pos') else 'fun_sym(%s)' % a if (nm, v.ty) == ('factor', 'fun') else v.ex if v.fresh else clone_of(v, a)))
        return Val('%s__%s(%s)' % (fn, '_'.join(k for k, _ in args), ', '.join(a for _, a in args)), ty, '(FunV { sym: %s, dirs: %s })' % tuple(specs) if ty == 'fun' and len(specs) == 2 and all(specs) else None)

    def x_Call(self, n):
        nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in self.vars else None
        if nm in CTOR and nm not in self.env:
            return self.ctor(n, CTOR[nm])
        if nm == 'isinstance' and len(n.args) == 2:
            if ast.unparse(n.args[1]) in ('sympy.Add', 'sympy.Mul', 'sym.Add', 'sym.Mul'):
                v = self.ex(n.args[0])
                k = ast.unparse(n.args[1])[-3:].lower()
                if v.ty != 'expr':
                    self.un(n)
                return Val('expr_is_%s(%s)' % (k, self.ref(v)), 'bool', 'is_%sv(%s)' % (k, v.spec) if v.spec else None)
            cs = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
            cs = [CLASSES.get(ast.unparse(c).split('.')[-1]) for c in cs]
            if None in cs:
                self.un(n)
            v = self.ex(n.args[0])
            r = 'true' if any(v.ty == c or c.endswith(':') and v.ty.startswith(c) for c in cs) else 'false'
            return Val(r, 'bool', r)
        dn = ast.unparse(n.func)
        if dn in CORE and 'core' not in self.vars:
            order, dflt, skip = CORE[dn]
            given = dict(zip(order, n.args))
            for k in n.keywords:
                if k.arg not in order or k.arg in given:
                    self.un(n)
                given[k.arg] = k.value
            if any(isinstance(a, ast.Starred) for a in n.args) or len(n.args) > len(order):
                self.un(n)
            for k, d in dflt.items():
                given.setdefault(k, ast.copy_location(ast.parse(d, mode='eval').body, n))
            a = [self.ex(given[k]) for k in order if k in given and k not in skip]
            return self.op(('f', dn) + tuple(x.ty for x in a), a, n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args and len(n.keywords) == 1 and (n.keywords[0].arg is None and isinstance(n.keywords[0].value, ast.Name) or n.keywords[0].arg == 'order'):
            v = self.ex(n.func.value)
            if n.keywords[0].arg is None and self.ex(n.keywords[0].value).ty != 'kw':
                self.un(n)
            return self.op(('m', v.ty, 'copy'), [v], n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in self.vars and ('sig', self.vars[n.func.value.id][1], n.func.attr) in self.env:
            recv = self.ex(n.func.value)
            names, dflt = self.env[('sig', recv.ty, n.func.attr)]
            given = dict(zip(names[1:], n.args))
            for k in n.keywords:
                if k.arg not in names or k.arg in given:
                    self.un(n)
                given[k.arg] = k.value
            if any(isinstance(a, ast.Starred) for a in n.args) or len(n.args) >= len(names):
                self.un(n)
            a = [recv]
            for x in names[1:]:
                d = given.get(x, dflt.get(x))
                if d is None:
                    self.un(n)
                a.append(Val('pnone()', 'none') if isinstance(d, ast.Constant) and d.value is None else self.ex(d))
            for k, e in self.env.items():
                if isinstance(k, tuple) and k[:2] == (recv.ty, n.func.attr) and len(e[1]) == len(a) and all(t == x.ty or t == 'rep' and x.ty in ('none', 'bool', 'rep') or t == 'const:' + x.ex for t, x in zip(e[1], a)):
                    return Val('%s(%s)' % (e[0], ', '.join('&prep()' if t == 'rep' else self.ref(x) for t, x in zip(e[1], a) if not t.startswith('const:'))), e[2])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'f' and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords and (ast.unparse(n.func.value) == 'Operator' or self.ex(n.func.value).ty == 'op'):
            v = self.ex(n.args[0].value)        # the unknown function applied to a list of symbols
            return self.op(('unknown', v.ty), [v], n)
        if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            self.un(n)
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in ('set', 'frozenset') and not n.args:
                return Val('fs_new()', 'fs', 'Set::<int>::empty()')
            if f.id in ('set', 'frozenset') and len(n.args) == 1 and isinstance(n.args[0], (ast.Set, ast.GeneratorExp, ast.ListComp)):
                e = n.args[0]
                if isinstance(e, ast.Set) and len(e.elts) == 1:
                    v = self.ex(e.elts[0])
                    if v.ty != 'int':
                        self.un(n)
                    return Val('fs_one(%s)' % self.ref(v), 'fs', 'set![%s]' % v.spec if v.spec else None)
                if isinstance(e, ast.Set):
                    self.un(n)
                v = self.ex(ast.copy_location(ast.ListComp(e.elt, e.generators), e))
                return self.op(('f', 'set', v.ty), [v], n)
            if f.id in ('any', 'all') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantifier(f.id, n.args[0])
            if f.id == 'len' and len(n.args) == 1:
                v = self.ex(n.args[0])
                if v.ty == 'vec' or v.ty == 'mat' or v.ty.startswith('list:'):
                    return Val('%s_plen(%s)' % ('l' if v.ty.startswith('list:') else v.ty, self.ref(v)), 'int', '(%s.len() as int)' % v.spec if v.spec else None)
                self.un(n)
            if f.id == 'sum' and len(n.args) == 2 and isinstance(n.args[1], ast.List) and not n.args[1].elts:
                v = self.ex(n.args[0])
                if not v.ty.startswith('list:list:'):
                    self.un(n)
                return Val('l_flat(%s)' % self.ref(v), v.ty[5:], 'flatv(%s, %s.len() as int)' % (v.spec, v.spec) if v.spec else None)
            if f.id == 'list' and len(n.args) == 1:
                v = self.ex(n.args[0])
                if v.ty.startswith('list:'):
                    return Val('l_clone(%s)' % self.ref(v), v.ty, v.spec)
                return self.op(('list', v.ty), [v], n)
            if f.id in self.env:
                rn, pts, rt = self.env[f.id]
                a = [self.ex(x) for x in n.args]
                if [x.ty for x in a] != pts:
                    self.un(n)
                self.calls.add(f.id)
                # a callee may not mutate or keep its arguments (checked when it is translated), so passing a reference is faithful
                return Val('%s(%s)' % (rn, ', '.join(self.ref(x) for x in a)), rt)
        dn = ast.unparse(f)
        if any(k[0] == 'f' and k[1] == dn for k in OPS) and dn.split('.')[0] not in self.vars:
            args = n.args[0].elts if len(n.args) == 1 and (isinstance(n.args[0], ast.Tuple) or dn == 'np.hstack' and isinstance(n.args[0], ast.List)) else n.args
            a = [self.ex(x) for x in args]
            return self.op(('f', dn) + tuple(x.ty for x in a), a, n)
        if dn in self.env and isinstance(f, ast.Attribute) and dn.split('.')[0] not in self.vars:
            rn, pts, rt = self.env[dn]
            a = [self.ex(x) for x in n.args]
            if [x.ty for x in a] != pts:
                self.un(n)
            return Val('%s(%s)' % (rn, ', '.join(self.ref(x) for x in a)), rt)
        # a method or static method under contract: Position.tensorize(...), self.position.project(...)
        if isinstance(f, ast.Attribute) and f.attr in self.env:
            recv = None
            if isinstance(f.value, (ast.Name, ast.Attribute)) and ast.unparse(f.value).split('.')[-1] in CLASSES:
                qual = CLASSES[ast.unparse(f.value).split('.')[-1]]
                a = [self.ex(x) for x in n.args]
            else:
                recv = self.ex(f.value)
                qual = recv.ty
                a = [recv] + [self.ex(x) for x in n.args]
            e = self.env.get((qual, f.attr) + tuple(x.ty for x in a)) or self.env.get((qual, f.attr) + tuple(x.ty for x in a) + ('none',))
            if e and len(e[1]) == len(a) + 1 and e[1][-1] == 'none':
                a.append(Val('pnone()', 'none'))
            if e and [x.ty for x in a] == e[1]:
                return Val('%s(%s)' % (e[0], ', '.join(self.ref(x) for x in a)), e[2])
        if isinstance(f, ast.Name):
            self.un(n)
        if isinstance(f, ast.Attribute):
            v = self.ex(f.value)
            a = [self.ex(x) for x in n.args]
            if v.ty.startswith('list:') and f.attr in ('index', 'count', 'copy'):
                if f.attr == 'copy' and not a:
                    return Val('l_clone(%s)' % self.ref(v), v.ty, v.spec)
                if len(a) != 1 or 'list:' + a[0].ty != v.ty:
                    self.un(n)
                return Val('l_%s(%s, %s)' % (f.attr, self.ref(v), self.ref(a[0])), 'int', '%s(%s, %s)' % ({'index': 'idx', 'count': 'cnt'}[f.attr], v.spec, a[0].spec) if v.spec and a[0].spec else None)
            for mk in ('m1', 'm'):
                o = OPS.get((mk, v.ty, f.attr))
                if o is not None and [x.ty for x in a] == o[3]:
                    return self.op((mk, v.ty, f.attr), [v] + a, n)
            if o is None or [x.ty for x in a] != o[3]:
                self.un(n)
            return self.op(('m', v.ty, f.attr), [v] + a, n)
        self.un(n)

    def quantifier(self, which, g):
        if len(g.generators) != 1 or g.generators[0].ifs or not isinstance(g.generators[0].target, ast.Name):
            self.un(g)
        it = self.ex(g.generators[0].iter)
        src = None
        if not it.ty.startswith('list:'):
            src = it.spec
            it = self.op(('iter', it.ty), [it], g)
        self.nany += 1
        b = 'any%d' % self.nany
        et = it.ty[5:]
        L = 'l'
        neg = '' if which == 'any' else '!'
        self.emit('let %s_l = %s;' % (b, it.ex))
        self.emit('let mut %s = %s;' % (b, 'false' if which == 'any' else 'true'))
        self.emit('let mut %s_k: usize = 0;' % b)
        nm = g.generators[0].target.id
        saved = self.vars.get(nm)
        # specification of the condition with the element replaced by a bound variable
        mark, keep = len(self.out), (self.ntmp, self.nany)
        self.vars[nm] = ('ELEM', et, 'local')
        sp = self.ex(g.elt).spec
        del self.out[mark:]
        self.ntmp, self.nany = keep
        if sp is None:
            self.un(g)
        sj = sp.replace('ELEM.v()', '(#[trigger] %s_l.v()[j])' % b, 1).replace('ELEM.v()', '%s_l.v()[j]' % b)
        self.emit('while %s_k < %s_len(&%s_l)' % (b, L, b))
        cond = 'exists|j: int| 0 <= j < %s_k && %s' % (b, sj) if which == 'any' else 'forall|j: int| 0 <= j < %s_k ==> %s' % (b, sj)
        for l in ('    invariant %s_k <= %s_l.v().len(), %s == (%s),' % (b, b, b, cond),):
            self.emit(l)
        self.emit('{')
        self.ind += 1
        self.emit('let %s = %s_get(&%s_l, %s_k);' % (nm, L, b, b))
        self.vars[nm] = (nm, et, 'local')
        c = self.ex(g.elt)
        self.emit('if %s%s { %s = %s; }' % (neg, '(%s)' % c.ex, b, 'true' if which == 'any' else 'false'))
        self.emit('%s_k = %s_k + 1;' % (b, b))
        self.ind -= 1
        self.emit('}')
        if src:
            # the same fact about the set itself
            se, st = sp.replace('ELEM.v()', 'e'), spec_ty(et)
            n_ = '' if which == 'any' else '!'
            self.emit('proof {')
            self.emit('    assert forall|e: %s| %s.contains(e) && %s(%s) implies exists|j: int| 0 <= j < %s_k && %s(%s) by { assert(%s_l.v().contains(e)); let j = %s_l.v().index_of(e); assert(%s_l.v()[j] == e); }'
                      % (st, src, n_, se, b, n_, sj, b, b, b))
            self.emit('    assert forall|j: int| 0 <= j < %s_k implies %s.contains(#[trigger] %s_l.v()[j]) by { assert(%s_l.v().contains(%s_l.v()[j])); }' % (b, src, b, b, b))
            self.emit('    assert(%s == (%s));' % (b, 'exists|e: %s| #[trigger] %s.contains(e) && %s' % (st, src, se) if which == 'any' else 'forall|e: %s| #[trigger] %s.contains(e) ==> %s' % (st, src, se)))
            self.emit('}')
        if saved:
            self.vars[nm] = saved
        else:
            del self.vars[nm]
        return Val(b, 'bool', b)

    # -------------------------------------------------------------------------------------------- statements
    def body(self, stmts):
        for s in stmts:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.un(s)
            m(s)

    def block(self, stmts, both=()):
        self.ind += 1
        saved = dict(self.vars)
        self.body(stmts)
        for x in both:      # declared before the conditional
            self.vars.pop(x, None)
            if x in saved:
                self.vars[x] = saved[x]
        # variables introduced in the block are not visible after it; parameters shadowed in it would be
        for k, v in self.vars.items():
            if k in saved and saved[k] != v:
                raise Unsupported('Python: %s is rebound in a nested block' % k)
        self.vars = saved
        self.ind -= 1

    def assign(self, name, v, n):
        ex = self.value(v, n, name)
        cur = self.vars.get(name)
        if cur is None or cur[2] == 'param':
            rn = {'in': 'in_', 'type': 'type_', 'ref': 'ref_', 'move': 'move_'}.get(name, name)
            if rn in self.prefs or re.match(r'(t|r)_\d+$|(loop|any|comp)\d+', rn):
                raise Unsupported('Python: the name ' + name)
            if name in self.hoist:
                if self.hoist[name] not in (None, v.ty):
                    raise Unsupported('Python: %s has two types' % name)
                self.hoist[name] = v.ty
                self.emit('%s = %s;' % (rn, ex))
            else:
                self.emit('let mut %s = %s;' % (rn, ex))
            self.vars[name] = (rn, v.ty, 'local')
            self.level[name] = self.ind if name not in self.hoist else -1
        else:
            if cur[1] != v.ty and (self.ind == 1 or self.level.get(name) == self.ind):
                self.emit('let mut %s = %s;' % (cur[0], ex))
                self.vars[name] = (cur[0], v.ty, 'local')
                return
            if cur[1] != v.ty:
                raise Unsupported('Python: %s changes its type' % name)
            self.emit('%s = %s;' % (cur[0], ex))

    def coerce(self, v):
        if self.want == 'nv' and v.ty in ('int', 'varf'):
            return Val('nv_%s(%s)' % (v.ty, self.ref(v)), 'nv', None)
        return Val('sym_integer(%s)' % self.ref(v), 'expr', 'eint(%s)' % v.spec) if self.want == 'expr' and v.ty == 'int' else v

    def s_Assign(self, n):
        if len(n.targets) != 1:
            self.un(n)
        t = n.targets[0]
        if isinstance(t, ast.Subscript):
            return self.store(t, n)
        if isinstance(t, ast.Name):
            self.want = self.loc.get(t.id)
            v = self.coerce(self.ex(n.value))
            self.want = None
            self.assign(t.id, v, n)
            k = sum(1 for x in self.muts if x == '=' + t.id)
            self.muts.append('=' + t.id)
            self.hint_block('assign.%s%d' % (t.id, k))
            return
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name) and t.elts[1].id == '_' and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) == 'la.eig' and not any(isinstance(x, ast.Name) and x.id == '_' and isinstance(x.ctx, ast.Load) for x in ast.walk(self.fn)):
            return self.s_Assign(ast.copy_location(ast.Assign([t.elts[0]], n.value), n))
        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
            vs = []
            for e, tt in zip(n.value.elts, t.elts):
                self.want = self.loc.get(tt.id) if isinstance(tt, ast.Name) else None
                v = self.ex(e)
                self.want = None
                v = Val(self.value(v, n, tt.id if isinstance(tt, ast.Name) else None), v.ty)
                x = self.tmp()
                self.emit('let %s = %s;' % (x, v.ex))
                vs.append(Val(x, v.ty))
            for e, v in zip(t.elts, vs):
                if not isinstance(e, ast.Name):
                    self.un(n)
                self.assign(e.id, v, n)
            return
        self.un(n)

    def store(self, t, n):
        b, idx = t.value, [t.slice]
        if isinstance(b, ast.Subscript):
            idx.insert(0, b.slice)
            b = b.value
        if not isinstance(b, ast.Name) or any(isinstance(i, (ast.Slice, ast.Tuple)) for i in idx):
            self.un(n)
        v = self.lookup(b)
        if self.vars[b.id][2] == 'param' or b.id in self.frozen():
            raise Unsupported('Python: %s is changed in place' % b.id)
        x = self.ex(n.value)
        ii = [self.ex(i) for i in idx]
        if v.ty.startswith('dict:') and len(ii) == 1:
            kt, vt = v.ty[5:].split(':', 1)
            if (vt, x.ty) == ('expr', 'int'):
                x = Val('sym_integer(%s)' % self.ref(x), 'expr', 'eint(%s)' % x.spec)
            if (ii[0].ty, x.ty) != (kt, vt):
                self.un(n)
            key = b.id + '.set'
            k = sum(1 for y in self.muts if y == key)
            self.muts.append(key)
            self.hint_block('%s%d.pre' % (key, k))
            w = self.value(x, n)
            if re.search(r'\b%s\b' % v.ex, w):
                t = self.tmp()
                self.emit('let %s = %s;' % (t, w))
                w = t
            self.emit('d_set(&mut %s, %s, %s);' % (v.ex, self.value(ii[0], n), w))
            self.hint_block('%s%d' % (key, k))
            return
        if any(i.ty != 'int' for i in ii):
            self.un(n)
        ok = {('vec', 1): 'real', ('mat', 2): 'real', ('mat', 1): 'vec'}.get((v.ty, len(ii))) or (v.ty[5:] if v.ty.startswith('list:') and len(ii) == 1 else None)
        if ok is None or x.ty != ok:
            self.un(n)
        f = 'l_set' if v.ty.startswith('list:') else 'mat_setrow' if (v.ty, len(ii)) == ('mat', 1) else v.ty + '_set'
        key = b.id + '.set'
        k = sum(1 for y in self.muts if y == key)
        self.muts.append(key)
        self.hint_block('%s%d.pre' % (key, k))
        self.emit('%s(&mut %s, %s, %s);' % (f, v.ex, ', '.join(self.ref(i) for i in ii), self.value(x, n) if f == 'l_set' else self.ref(x)))
        self.hint_block('%s%d' % (key, k))

    def s_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript):
            t = copy.deepcopy(n.target)
            for x in ast.walk(t):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            return self.store(n.target, ast.copy_location(ast.Assign([n.target], ast.copy_location(ast.BinOp(t, n.op, n.value), n)), n))
        if not isinstance(n.target, ast.Name):
            self.un(n)
        if is_mutable(self.lookup(n.target).ty):
            self.un(n)
        self.assign(n.target.id, self.x_BinOp(ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(n.target.id, ast.Load()), n), n.op, n.value), n)), n)

    def s_Delete(self, n):
        t = n.targets[0]
        if len(n.targets) != 1 or not isinstance(t, ast.Subscript) or not isinstance(t.value, ast.Name):
            self.un(n)
        v, i = self.lookup(t.value), self.ex(t.slice)
        if not v.ty.startswith('dict:%s:' % i.ty):
            self.un(n)
        if self.vars[t.value.id][2] == 'param' or t.value.id in self.frozen():
            raise Unsupported('Python: %s is changed in place' % t.value.id)
        key = t.value.id + '.del'
        k = sum(1 for y in self.muts if y == key)
        self.muts.append(key)
        self.hint_block('%s%d.pre' % (key, k))
        self.emit('d_del(&mut %s, %s);' % (v.ex, self.ref(i)))
        self.hint_block('%s%d' % (key, k))

    def s_Raise(self, n):
        for l in self.sc.maythrow:
            self.emit('assert(%s);' % l.strip().rstrip(','))
        self.emit('py_raise();')
        self.emit('return py_stop();')

    def s_Assert(self, n):
        c = self.ex(n.test)
        self.emit('if !(%s) { py_raise(); }' % c.ex)

    def s_FunctionDef(self, n):
        if n.name not in self.env:
            self.un(n)

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
            v = self.lookup(c.func.value)
            o = MUT.get((v.ty, c.func.attr)) or (('l_push', [v.ty[5:]]) if v.ty.startswith('list:') and c.func.attr == 'append' else None)
            if o:
                if self.vars[c.func.value.id][2] == 'param':
                    raise Unsupported('Python: the parameter %s is mutated' % c.func.value.id)
                if c.func.value.id in self.frozen():
                    raise Unsupported('Python: %s is mutated while it is iterated over' % c.func.value.id)
                a = [self.ex(x) for x in c.args]
                if [x.ty for x in a] != o[1] or c.keywords:
                    self.un(n)
                key = '%s.%s' % (c.func.value.id, c.func.attr)
                k = sum(1 for x in self.muts if x == key)
                self.muts.append(key)
                self.hint_block('%s%d.pre' % (key, k))
                if o[0] == 'l_push' and isinstance(c.args[0], ast.Name) and is_mutable(a[0].ty) and n in self.last and self.level.get(c.args[0].id) == self.ind:
                    a[0] = Val(a[0].ex, a[0].ty)        # the last statement of a loop body, a name bound in that body: a move
                self.emit('%s(&mut %s, %s);' % (o[0], v.ex, self.value(a[0], n) if o[0] == 'l_push' else ', '.join(self.ref(x) for x in a)))
                self.hint_block('%s%d' % (key, k))
                return
        self.un(n)

    def frozen(self):
        return [x for x in self.iterated if x]

    def s_If(self, n):
        c = self.ex(n.test)
        if c.ty != 'bool':
            self.un(n)
        if c.ex in ('true', 'false'):       # a static isinstance test: the other branch belongs to another instance of the function
            self.body(n.body if c.ex == 'true' else n.orelse)
            return
        # a parameter rebound in a branch becomes a local variable before the conditional
        for x in sorted({y.id for z in n.body + n.orelse for y in ast.walk(z) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}):
            if x in self.vars and self.vars[x][2] == 'param' and x not in self.hoist and not self.diverges(n.body if x in self.binds(n.body) else n.orelse):
                if is_mutable(self.vars[x][1]) and x in self.mutated:
                    raise Unsupported('Python: the parameter %s is mutated' % x)
                pv = self.lookup(ast.copy_location(ast.Name(x, ast.Load()), n))
                self.emit('let mut %s = %s;' % (x, clone_of(pv, pv.ex) if pv.ty != 'bool' else pv.ex))
                self.vars[x] = (x, pv.ty, 'local')
        # a name first bound in both branches is declared before the conditional
        both = self.binds(n.body), self.binds(n.orelse)
        both = both[1] if self.diverges(n.body) else both[0] if self.diverges(n.orelse) else both[0] & both[1]
        both = sorted(both - {k for k, v in self.vars.items() if v[2] != 'param'})
        new = [x for x in both if x not in self.hoist]
        mark = len(self.out)
        for x in new:
            self.hoist[x] = None
        self.emit('if %s {' % c.ex)
        self.block(n.body, both)
        if n.orelse:
            self.emit('} else {')
            self.block(n.orelse, both)
        self.emit('}')
        for x in new:
            t = self.hoist.pop(x)
            if t is None:
                continue
            rn = {'in': 'in_', 'type': 'type_', 'ref': 'ref_', 'move': 'move_'}.get(x, x)
            self.out.insert(mark, '    ' * self.ind + 'let mut %s: %s;' % (rn, rust_ty(t)))
            self.vars[x] = (rn, t, 'local')

    def diverges(self, stmts):
        s = stmts[-1] if stmts else None
        return isinstance(s, (ast.Raise, ast.Return)) or isinstance(s, ast.If) and bool(s.orelse) and self.diverges(s.body) and self.diverges(s.orelse)

    def binds(self, stmts):
        """names bound on every path through the statements that goes on after them; a path that leaves binds everything"""
        r = set()
        for s in stmts:
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                r |= {x.id for x in ast.walk(s.targets[0]) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(s, ast.If):
                a, b = self.binds(s.body), self.binds(s.orelse)
                r |= b if self.diverges(s.body) else a if self.diverges(s.orelse) else a & b
        return r

    def s_Pass(self, n):
        pass

    def s_While(self, n):
        if n.orelse:
            self.un(n)
        k = self.nloop
        self.nloop += 1
        self.loops_seen.append('while')
        self.hint_block('loop%d.before' % k)
        inv = self.sc.loops.get(k)
        if inv is None:
            raise Unsupported('no invariant for loop %d' % k)
        self.emit('loop')
        for l in inv:
            self.emit('    ' + l.strip())
        self.emit('{')
        self.ind += 1
        saved = dict(self.vars)
        self.hint_block('loop%d.test' % k)
        c = self.ex(n.test)
        self.emit('if !(%s) {' % c.ex)
        self.ind += 1
        self.hint_block('loop%d.exit' % k)
        self.emit('break;')
        self.ind -= 1
        self.emit('}')
        self.hint_block('loop%d.begin' % k)
        self.iterated.append(None)
        self.body(n.body)
        self.iterated.pop()
        self.vars = saved
        self.hint_block('loop%d.end' % k)
        self.ind -= 1
        self.emit('}')
        self.hint_block('loop%d.after' % k)

    def s_For(self, n):
        enum = isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and all(isinstance(x, ast.Name) for x in n.target.elts) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and not n.iter.keywords
        items = isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and all(isinstance(x, ast.Name) for x in n.target.elts) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and not n.iter.args and not n.iter.keywords
        if items and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.iter.func.value, ast.Name) and not n.orelse and ast.unparse(n.body[0].targets[0]) == '%s[%s]' % (n.iter.func.value.id, n.target.elts[0].id) and n.iter.func.value.id not in {x.id for x in ast.walk(n.body[0].value) if isinstance(x, ast.Name)}:
            return self.remap(n)
        if n.orelse or not isinstance(n.target, ast.Name) and not enum and not items or any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for b in n.body for x in ast.walk(b)):
            self.un(n)
        k = self.nloop
        self.nloop += 1
        self.loops_seen.append('for')
        src = n.iter.args[0] if enum else n.iter.func.value if items else n.iter
        it = self.ex(src)
        name = src.id if isinstance(src, ast.Name) else None
        if items:
            if not it.ty.startswith('dict:') or name in self.mutated:
                self.un(n)
            if name is None:
                self.emit('let loop%d_d = %s;' % (k, self.value(it, n)))
                it = Val('loop%d_d' % k, it.ty, 'loop%d_d.v()' % k)
            dct, (kt, vt) = it, it.ty[5:].split(':', 1)
            it = Val('d_keys(%s)' % self.ref(it), 'list:' + kt, None)
        elif it.ty.startswith('dict:'):
            it = Val('d_keys(%s)' % self.ref(it), 'list:' + it.ty[5:].split(':', 1)[0], None)
        elif not it.ty.startswith('list:'):
            it = self.op(('iter', it.ty), [it], n)
        b, L = 'loop%d' % k, 'l'
        if it.fresh:
            self.emit('let %s_l = %s;' % (b, it.ex))
        else:
            self.emit('let %s_l = %s_clone(%s);' % (b, L, self.ref(it)))
        self.emit('let mut %s_k: usize = 0;' % b)
        self.hint_block('loop%d.before' % k)
        inv = self.sc.loops.get(k)
        if inv is None:
            raise Unsupported('no invariant for loop %d' % k)
        self.emit('while %s_k < %s_len(&%s_l)' % (b, L, b))
        inv = [l.strip() for l in inv]
        if not inv[0].startswith('invariant'):
            raise Exception('loop %d: sidecar must start with invariant' % k)
        inv[0] = 'invariant %s_k <= %s_l.v().len(), ' % (b, b) + inv[0][len('invariant'):]
        for l in inv:
            self.emit('    ' + l)
        self.emit('{')
        self.ind += 1
        saved = dict(self.vars)
        el = n.target
        if enum:
            el = n.target.elts[1]
            self.emit('let %s = pint_of(%s_k);' % (n.target.elts[0].id, b))
            self.vars[n.target.elts[0].id] = (n.target.elts[0].id, 'int', 'local')
        if items:
            el = n.target.elts[0]
        self.emit('let %s = %s_get(&%s_l, %s_k);' % (el.id, L, b, b))
        self.vars[el.id] = (el.id, it.ty[5:], 'local')
        if items:
            self.emit('proof { assert(%s_l.v().contains(%s.v())); }' % (b, el.id))
            self.emit('let %s = d_get(%s, &%s);' % (n.target.elts[1].id, self.ref(dct), el.id))
            self.vars[n.target.elts[1].id] = (n.target.elts[1].id, vt, 'local')
        if it.ty[5:] != 'bool':
            self.emit('proof { assert(%s_l.v().contains(%s.v())); }' % (b, el.id))
        self.hint_block('loop%d.begin' % k)
        self.iterated.append(name)
        self.body(n.body)
        self.iterated.pop()
        self.vars = saved
        self.emit('%s_k = %s_k + 1;' % (b, b))
        self.hint_block('loop%d.end' % k)
        self.ind -= 1
        self.emit('}')
        self.hint_block('loop%d.after' % k)

    def remap(self, n):
        """for k, v in d.items(): d[k] = e(k, v)   as   d = {k: e(k, v) for k, v in d.items()}"""
        d = n.iter.func.value.id
        if self.vars[d][2] == 'param' or d in self.frozen():
            self.un(n)
        v = self.dictcomp(n, n.target, n.iter, ast.copy_location(ast.Name(n.target.elts[0].id, ast.Load()), n), n.body[0].value, None)
        self.assign(d, v, n)
        self.hint_block('remap.%s' % d)

    def x_DictComp(self, n):
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or g.is_async:
            self.un(n)
        w, self.want = self.want, None
        return self.dictcomp(n, g.target, g.iter, n.key, n.value, w)

    def dictcomp(self, n, target, it_, key, val, want):
        """a dictionary built entry by entry; what is known: its keys, and the value at a key as long as the value is a function of the key"""
        items = isinstance(target, ast.Tuple) and len(target.elts) == 2 and all(isinstance(x, ast.Name) for x in target.elts) and isinstance(it_, ast.Call) and isinstance(it_.func, ast.Attribute) and it_.func.attr == 'items' and not it_.args
        if not items and not isinstance(target, ast.Name):
            self.un(n)
        self.nany += 1
        b = 'comp%d' % self.nany
        src = self.ex(it_.func.value if items else it_)
        if items:
            if not src.ty.startswith('dict:'):
                self.un(n)
            et, vt = src.ty[5:].split(':', 1)
            self.emit('let %s_d = %s;' % (b, src.ex if src.fresh else 'd_clone(%s)' % self.ref(src)))
            self.emit('let %s_l = d_keys(&%s_d);' % (b, b))
        else:
            if not src.ty.startswith('list:'):
                src = self.op(('iter', src.ty), [src], n)
            et = src.ty[5:]
            self.emit('let %s_l = %s;' % (b, src.ex if src.fresh else 'l_clone(%s)' % self.ref(src)))
        nm, vn = (target.elts[0].id, target.elts[1].id) if items else (target.id, None)
        saved = dict(self.vars)
        mark, keep = len(self.out), (self.ntmp, self.nany)
        self.vars[nm] = ('ELEM', et, 'local')
        if vn:
            self.vars[vn] = ('EVAL', vt, 'local')

        def coerced(v):
            return Val('sym_integer(%s)' % self.ref(v), 'expr', 'eint(%s)' % v.spec) if want and want.endswith(':expr') and v.ty == 'int' else v
        ks, xs = self.ex(key), coerced(self.ex(val))
        del self.out[mark:]
        self.ntmp, self.nany = keep
        if ks.spec is None or xs.spec is None or is_mutable(xs.ty) or want and want != 'dict:%s:%s' % (ks.ty, xs.ty):
            self.un(n)
        sp = lambda s: s.replace('EVAL.v()', '%s_d.v()[%s_l.v()[j]]' % (b, b)).replace('ELEM.v()', '%s_l.v()[j]' % b)
        if not (items and ks.spec == 'ELEM.v()') and ('ELEM' in xs.spec or 'EVAL' in xs.spec):
            self.un(n)
        t = 'dict:%s:%s' % (ks.ty, xs.ty)
        self.emit('let mut %s = d_new::<%s, %s>();' % (b, rust_ty(ks.ty), rust_ty(xs.ty)))
        self.emit('let mut %s_k: usize = 0;' % b)
        self.emit('while %s_k < l_len(&%s_l)' % (b, b))
        self.emit('    invariant %s_k <= %s_l.v().len(), forall|x: %s| #[trigger] %s.v().dom().contains(x) <==> exists|j: int| 0 <= j < %s_k && x == %s,' % (b, b, spec_ty(ks.ty), b, b, sp(ks.spec).replace('%s_l.v()[j]' % b, '(#[trigger] %s_l.v()[j])' % b, 1)))
        self.emit('        forall|j: int| 0 <= j < %s_k ==> #[trigger] %s.v()[%s] == %s,' % (b, b, sp(ks.spec), sp(xs.spec)))
        self.emit('{')
        self.ind += 1
        self.emit('let %s = l_get(&%s_l, %s_k);' % (nm, b, b))
        self.vars[nm] = (nm, et, 'local')
        self.emit('proof { assert(%s_l.v().contains(%s.v())); }' % (b, nm))
        if vn:
            self.emit('let %s = d_get(&%s_d, &%s);' % (vn, b, nm))
            self.vars[vn] = (vn, vt, 'local')
        k2, x2 = self.ex(key), coerced(self.ex(val))
        self.emit('let ghost %s_o = %s.v();' % (b, b))
        self.emit('d_set(&mut %s, %s, %s);' % (b, self.value(k2, n), self.value(x2, n)))
        self.emit('%s_k = %s_k + 1;' % (b, b))
        self.hint_block('%s.end' % b)
        self.ind -= 1
        self.emit('}')
        self.vars = saved
        self.hint_block('%s.after' % b)
        return Val(b, t, '%s.v()' % b)

    def s_Return(self, n):
        if n.value is None:
            self.un(n)
        self.in_return = True
        v = self.ex(n.value)
        self.in_return = False
        if (v.ty, self.ret) == ('nv', 'varf'):
            v = Val('nv_get(%s)' % self.ref(v), 'varf', None)
        if v.ty != self.ret:
            self.un(n)
        ex = v.ex
        if not v.fresh and isinstance(n.value, ast.Name) and self.vars[n.value.id][2] == 'param':
            if is_mutable(v.ty):
                raise Unsupported('Python: returns its argument (aliasing)')
            ex = clone_of(v, v.ex)
        self.emit('let r_%d = %s;' % (self.nret, ex))
        self.hint_block('return%d' % self.nret)
        self.hint_block('returns')
        self.emit('return r_%d;' % self.nret)
        self.nret += 1

    # -------------------------------------------------------------------------------------------- function
    def text(self, rn, types, ret):
        a = self.fn.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or [d for d in self.fn.decorator_list if ast.unparse(d) not in DECORATORS]:
            raise Unsupported('Python: signature of ' + self.fn.name)
        names = [x.arg for x in a.args]
        for d, t in zip(a.defaults, types[len(types) - len(a.defaults):] if len(names) == len(types) else []):
            if t == 'none' and not (isinstance(d, ast.Constant) and d.value is None):
                raise Unsupported('Python: default of %s' % self.fn.name)
        if len(names) != len(types):
            raise Unsupported('Python: %s has %d parameters' % (self.fn.name, len(names)))
        if self.sc.params and names != self.sc.params:
            raise Unsupported('Python: parameters of %s renamed' % self.fn.name)
        self.ret, self.muts, self.iterated, self.want, self.in_return = ret, [], [], None, False
        for nm, t in zip(names, types):
            if t.startswith('const:') and t not in ('const:true', 'const:false'):
                raise Unsupported('Python: type ' + t)
            self.vars[nm] = ('p_' + nm, t, 'param')
            self.prefs.add('p_' + nm)
        self.hint_block('entry')
        self.body(self.fn.body)
        if not re.match(r'    return', self.out[-1]):
            raise Unsupported('Python: %s may fall off its end' % self.fn.name)
        if self.nloop != len(self.sc.loops):
            raise Unsupported('Python: %s has %d loops, the contract knows %d' % (self.fn.name, self.nloop, len(self.sc.loops)))
        sig = ', '.join('p_%s: %s%s' % (nm, '&' if t != 'bool' else '', rust_ty(t)) for nm, t in zip(names, types) if not t.startswith('const:'))
        head = ['#[verifier::exec_allows_no_decreases_clause]', '#[verifier::loop_isolation(false)]', 'pub fn %s(%s) -> (r: %s)' % (rn, sig, rust_ty(ret))]
        if self.sc.requires:
            head += ['    requires'] + ['        ' + l.strip() for l in self.sc.requires]
        if self.sc.ensures:
            head += ['    ensures'] + ['        ' + l.strip() for l in self.sc.ensures]
        return '\n'.join(head + ['{'] + self.out + ['}'])


def stub(sc, rn):
    types, ret = sc.types
    sig = ', '.join('p_%s: %s%s' % (nm, '&' if t != 'bool' else '', rust_ty(t)) for nm, t in zip(sc.params, types) if not t.startswith('const:'))
    req = ' requires ' + ' '.join(sc.requires) if sc.requires else ''
    return '#[verifier::external_body] pub fn %s(%s) -> (r: %s)%s ensures %s { unimplemented!() }' % (rn, sig, rust_ty(ret), req, ' '.join(sc.ensures))


def find(tree, path):
    """function definition by dotted path, methods and nested functions included"""
    node = tree
    for p in path.split('.'):
        c = [x for x in (node.body if hasattr(node, 'body') else []) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == p]
        if len(c) != 1:
            raise Unsupported('Python: %s not found (%d candidates)' % (path, len(c)))
        node = c[0]
    return node
