"""The Verus units: which functions of /repo are proved together, against which lemma files."""
from contracts import Unit, PyUnit
IT = 'cpp/src/hermite/iterators.cpp'
HE = 'cpp/src/hermite/hermite.cpp'
LIB = 'cpp/src/hermite/lib.cpp'
VF = 'cpp/src/hermite/varf.cpp'
BASE = ['iters', 'hash', 'order']
UNITS = [
    Unit('nested', IT, [], BASE + ['tri', 'cr', 'nested']),
    Unit('base', IT, ['Vector_iterator::Vector_iterator', 'Multi_index_iterator::Multi_index_iterator', 'Vector_iterator::operator[](i)', 'Vector_iterator::reset', 'Multi_index_iterator::reset', 'Multi_index_iterator::increment', 'Multi_index_iterator::index', 'Multi_index_iterator::has', 'Multi_index_iterator::size'], BASE),
    Unit('lib', LIB, ['isAligned(vu,u)', 'isAligned(vu,vu)', 'hash_print(vu)', 'pos_bissect(u,c,u)'], BASE + ['misc']),
    Unit('triangle', IT, ['Triangle_iterator::s_increment', 'Triangle_iterator::Triangle_iterator', 'Triangle_iterator::s_list', 'Triangle_iterator::s_size', 'Triangle_iterator::s_index', 'Triangle_iterator::s_get_degree', 'Triangle_iterator::s_find_dim'], BASE + ['tri']),
    Unit('cube', IT, ['Cube_iterator::' + x for x in ('s_increment', 'Cube_iterator', 's_list', 's_size', 's_get_degree', 's_index')], BASE + ['cr', 'box', 'cuberank']),
    Unit('rectangle', IT, ['Rectangle_iterator::' + x for x in ('s_increment', 'Rectangle_iterator', 's_list', 's_size', 's_get_degree')], BASE + ['cr', 'box']),
    Unit('cross', IT, ['Cross_iterator::' + x for x in ('s_increment', 'Cross_iterator', 's_list', 's_size', 's_get_degree')], BASE + ['tri', 'cr', 'nested', 'cross']),
    Unit('cross_nc', IT, ['Cross_iterator_nc::' + x for x in ('s_increment', 'Cross_iterator_nc', 's_list', 's_size', 's_get_degree')], BASE + ['tri', 'crossnc']),
    Unit('hermite', HE, ['hermite_eval(r,u,vr)'], ['hermite']),
    Unit('grid', IT, ['Grid_iterator::' + x for x in ('Grid_iterator', 'index', 'increment', 'list')], ['iters', 'grid']),
    Unit('project', 'cpp/src/hermite/project.cpp', ['extract<u>(vu,vu)', 'project<K>(vr,u,vu)', 'project_vec_nd(vr,u,vu,s)', 'project_vec_1d(vr,u,u,s)'], BASE + ['misc', 'dirs']),
    Unit('matrix', 'cpp/src/hermite/matrix.cpp', [f + '(%s%s)' % (t, a) for f, a in (('set', ',u,u,r'), ('get', ',u,u'), ('size1', ''), ('size2', '')) for t in ('vvr', 'S', 'B')]
         + ['construct<%s>(u,u)' % t for t in ('vvr', 'S', 'B')] + ['naive_convert<B,vvr>(vvr)', 'naive_convert<vvr,B>(B)', 'naive_convert<B,S>(S)']
         + ['convert<%s>(%s)' % (a, b) for a, b in (('vvr', 'vvr'), ('S', 'S'), ('vvr', 'S'), ('S', 'vvr'), ('B', 'vvr'), ('vvr', 'B'), ('B', 'S'), ('B', 'B'))], ['csr']),
    Unit('sparse', 'cpp/src/hermite/sparse.cpp', ['full(S)', 'to_spmat(vvr)', 'to_spmat(vr,vu,vu,u,u)', 'row_col_val(S)'], ['csr']),
    Unit('project_mat', 'cpp/src/hermite/project.cpp', ['project<K,vvr>(vvr,u,vu)', 'project<K,S>(S,u,vu)', 'project_mat_nd<vvr>(vvr,u,vu,s)', 'project_mat_nd<S>(S,u,vu,s)', 'project_mat_1d<vvr>(vvr,u,u,s)', 'project_mat_1d<S>(S,u,u,s)'], BASE + ['misc', 'dirs']),
    Unit('tvec', 'cpp/src/hermite/tensorize.cpp', ['tensorize<K>(vvr,vvu)', 'tensorize_vecs_dirs(vvr,vvu,s)', 'tensorize_vecs_axes(vvr,s)', 'tensorize_vec_id(vr,u,u,s)'], BASE + ['misc', 'dirs', 'tvec']),
    Unit('tmat', 'cpp/src/hermite/tensorize.cpp', ['tensorize_dirs(vu,vu,vu,vu,vu)', 'tensorize<K>(S,S,vu,vu)'], BASE + ['misc', 'dirs', 'tvec', 'tmat'], rlimit=40),
    Unit('tmats', 'cpp/src/hermite/tensorize.cpp', ['_tensorize_mats_dirs<K,%s,%s>(v%s,vvu)' % (t, s, s) for t, s in (('vvr', 'vvr'), ('vvr', 'S'), ('S', 'vvr'), ('S', 'S'), ('B', 'vvr'))] + ['_tensorize_mats_axes<K,%s,%s>(v%s)' % (t, s, s) for t, s in (('vvr', 'vvr'), ('vvr', 'S'), ('S', 'vvr'), ('S', 'S'), ('B', 'vvr'))] + [f % (t, s, a) for t, s in (('vvr', 'vvr'), ('vvr', 'S'), ('S', 'vvr'), ('S', 'S')) for f, a in (('tensorize_mats_dirs<%s,%s>(v%s,vvu,s)', s), ('tensorize_mats_axes<%s,%s>(v%s,s)', s), ('tensorize_mat_id<%s,%s>(%s,u,u,s)', s))] + ['eye<vvr>(u)', 'eye<S>(u)'], BASE + ['misc', 'dirs', 'tvec', 'tmat']),
    Unit('inner', 'cpp/src/hermite/inner.cpp', ['inner<K>(vr,vr,vu,vu)', 'inner(vr,vr,vu,vu,s)'], BASE + ['misc', 'dirs', 'tvec', 'tmat', 'inner']),
    Unit('transform', 'cpp/src/hermite/transform.cpp', ['_transform<K>(u,vr,vvr,vvr,vu,b)', 'transform(u,vr,vvr,vvr,vu,b,s)', 'integrate(vr,vvr,vvr,vu)'], BASE + ['misc', 'dirs', 'tvec', 'grid', 'hermite', 'fourierdef', 'gridpt', 'transform']),
    Unit('discretize', 'cpp/src/hermite/discretize.cpp', ['map_point(vr,vvr,pr,pr)', 'discretize(f,vvr,vr,vvr)'], ['iters', 'grid', 'gridpt', 'ptr', 'discretize']),
    Unit('varfd', VF, ['varfd<%s>(u,u,u,%s,u,s)' % (t, t) for t in ('S', 'B', 'vvr')], BASE + ['misc', 'dirs', 'tvec', 'varfd']),
    Unit('varf', VF, ['varf<K,%s>(u,vr,vvr,vvr,vu)' % t for t in ('S', 'B', 'vvr')] + ['varf<%s>(u,vr,vvr,vvr,vu,s)' % t for t in ('S', 'B', 'vvr')], BASE + ['misc', 'dirs', 'tvec', 'tmat', 'grid', 'hermite', 'fourierdef', 'htripdef', 'gridpt', 'transform', 'ops', 'varf']),
    Unit('varfsym', VF, [], BASE + ['misc', 'dirs', 'tvec', 'tmat', 'grid', 'hermite', 'fourierdef', 'htripdef', 'htrip:lemma_htrip_sym', 'gridpt', 'transform', 'ops', 'varf', 'varfsym']),
    Unit('ops', VF, ['operator*<r>(vr,r)', 'operator*<vr>(vvr,r)', 'operator+<r>(vr,vr)', 'operator+<vr>(vvr,vvr)'], ['ops'], filt=('operator+', 'operator*')),
    Unit('htrip', VF, ['triple_products_1d(i)'], ['hermite', 'htripdef', 'htrip', 'hlin']),
    Unit('fourier', VF, ['triple_products_fourier(i)'], ['fourierdef', 'fourier']),
    Unit('converters', 'cpp/src/hermite/python/converters.cpp', ['to_bmat(N)', 'to_boost_mat(N)', 'to_mat(N)', 'to_numpy<vvr>(vvr)', 'to_numpy<C>(C)', 'to_numpy<B>(B)'], ['ptr', 'nd']),
    PyUnit('pylib', 'hermipy/lib.py', ['finest_common'], ['fc']),
    PyUnit('pyquad', 'hermipy/quad.py', ['Quad.project', 'Quad.project@int', 'Quad.tensorize'], ['pos', 'quad_py'], uses=[('position', 'Position.project'), ('position', 'Position.project@int'), ('position', 'Position.tensorize')]),
    PyUnit('pyquadop', 'hermipy/quad.py', ['Quad.' + x for x in ('discretize', 'discretize@int', 'varf', 'varf@vec', 'varf@int', 'varfd', 'discretize_op')], ['pos', 'quad_py', 'series_py', 'quadops_py']),
    PyUnit('pyquadfn', 'hermipy/quad.py', ['Quad.' + x for x in ('discretize', 'discretize@expr', 'discretize@int', 'transform', 'transform@vec', 'eval', 'integrate', 'integrate@vec', 'integrate@ser', 'series')], ['pos', 'quad_py', 'series_py', 'quadops_py']),
    PyUnit('pycross', 'hermipy/lib.py', ['cross_in_triangle'], ['crosstri']),
    PyUnit('pyseries', 'hermipy/series.py', ['Series.' + x for x in ('tensorize._tensorize', 'tensorize', '__add__', '__add__@real', '__mul__', '__mul__@int', '__mul__@real', '__sub__', '__neg__', '__truediv__', 'project', 'project@int', 'subdegree', 'to_cross')], ['pos', 'crosstri', 'series_py'], uses=[('position', 'Position.project'), ('position', 'Position.project@int'), ('position', 'Position.tensorize'), ('lib', 'cross_in_triangle')]),
    PyUnit('pyvarf', 'hermipy/varf.py', ['Varf.' + x for x in ('tensorize', '__add__', '__add__@real', '__mul__', '__mul__@int', '__mul__@real', '__sub__', '__neg__', '__call__', 'project', 'project@int', 'subdegree', 'to_cross')], ['pos', 'crosstri', 'series_py', 'varf_py'], uses=[('position', 'Position.project'), ('position', 'Position.project@int'), ('position', 'Position.tensorize'), ('lib', 'cross_in_triangle')]),
    PyUnit('pyfun', 'hermipy/function.py', ['Function.' + x for x in ('split', 'project', 'project@int', 'tensorize', '__mul__', '__mul__@expr', '__mul__@int', '__truediv__', '__truediv__@expr', '__truediv__@int', '__add__', '__add__@expr', '__add__@int')], ['sym_py', 'fun_py']),
    PyUnit('pyoper', 'hermipy/operator.py', ['Operator.' + x for x in ('__add__', '__sub__', '__neg__', '__mul__', '__mul__@expr', '__mul__@int', '__call__', '__call__@op', 'map')], ['sym_py', 'oper_py']),
    PyUnit('pypos', 'hermipy/position.py', ['Position.project', 'Position.project@int', 'Position.tensorize._tensorize', 'Position.tensorize'], ['pos']),
]
# the part of a unit that a property depends on: functions left out become assumed contracts, discharged by another property
PARTS = {
    'enum': lambda k: k.split('::')[-1] in ('s_increment', 's_list', 's_size', 'reset', 'increment', 'operator[](i)', 'size') or k.split('::')[0] == k.split('::')[-1],
    'index': lambda k: k.split('::')[-1] in ('s_index', 'index', 'has') or k.split('::')[0] == k.split('::')[-1],
    'degree': lambda k: k.split('::')[-1] in ('s_get_degree', 's_find_dim'),
    'list': lambda k: k.split('::')[-1] == 's_list',
    'hash': lambda k: k.startswith('hash_print'),
    'bissect': lambda k: k.startswith('pos_bissect'),
    'aligned': lambda k: k.startswith('isAligned'),
    'extract': lambda k: k.startswith('extract'),
    'grid': lambda k: not k.startswith('extract'),
    'mats': lambda k: '(B' not in k and 'B,' not in k and not k.startswith('get'),
}


def get(n):
    base, _, part = n.partition(':')
    for u in UNITS:
        if u.name == base:
            if not part:
                return u
            ks = [k for k in u.fns if PARTS[part](k)]
            if not ks:
                raise KeyError(n)
            return Unit(n.replace(':', '_'), u.tu, ks, u.specs, u.generic, u.rlimit, filt=u.filt)
    raise KeyError(n)
