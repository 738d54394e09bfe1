# Bounded contract checks through hermipy.core: the bindings (module.cpp) and the wrappers (core.py) that hand arguments to
# the C++ library and results back.  Same contracts as harness.cpp; the oracle is numpy.  Executed inside pyharness.py.
import itertools        # noqa: E402
import math             # noqa: E402
import re               # noqa: E402
R = random.Random(A.seed * 7919 + 5)
SETS = ('triangle', 'cube', 'cross', 'cross_nc', 'rectangle')
CORE = None


def core():
    global CORE
    if CORE is None:
        import hermipy.core as c
        sys.modules['hermipy.settings'].settings.update(cache=False, cachedir=TMP)
        CORE = c
    return CORE


def inset(k, d, m):
    if k == 'triangle':
        return sum(m) <= d
    if k in ('cross', 'cross_nc'):
        return math.prod(max(1, x) for x in m) <= max(1, d)
    return all((1 if i == 0 or k == 'cube' else 2) * x <= d for i, x in enumerate(m))


def okey(k, m):
    if k in ('triangle', 'cross_nc'):
        return tuple(itertools.accumulate(m))[::-1]
    if k == 'cross':
        return tuple(itertools.accumulate((max(1, x) for x in m), lambda a, b: a * b))[::-1] + tuple(m)[::-1]
    w = [(1 if i == 0 or k == 'cube' else 2) * x for i, x in enumerate(m)]
    mx = max(w)
    return (mx, max(i for i, x in enumerate(w) if x == mx)) + tuple(m)[::-1]


def olist(k, dim, d):
    box = range(max(1, d) + 1)
    return sorted((m for m in itertools.product(box, repeat=dim) if inset(k, d, m)), key=lambda m: okey(k, m))


def dmin(k):
    return 1 if k.startswith('cross') else 0


def val(mode):
    x = R.uniform(-1, 1)
    return x if mode < 3 else x * 10. ** R.randint(-20, 15) if mode == 3 else float(R.randint(-2, 2))


def rvec(n):
    mo = R.randint(0, 4)
    return np.array([val(mo) for _ in range(n)])


def rmat(n, m=None, dens=100):
    m = n if m is None else m
    mo = R.randint(0, 4)
    return np.array([[val(mo) if R.randint(1, 100) <= dens else 0. for _ in range(m)] for _ in range(n)]).reshape(n, m)


def same(a, b, scale, what, tol=1e-9):
    import scipy.sparse as ss
    a = np.asarray(a.todense()) if ss.issparse(a) else np.asarray(a)
    if a.shape != np.shape(b):
        fail('%s: shape %s, expected %s' % (what, a.shape, np.shape(b)))
    bad = np.argwhere(~(np.abs(a - b) <= tol * np.abs(scale)))
    if len(bad):
        i = tuple(int(x) for x in bad[0])
        fail('%s: entry %s is %r, expected %r' % (what, i, float(a[i]), float(b[i])))


def par(dims, degs, cap=120):
    while True:
        k, dim = R.choice(SETS), R.randint(*dims)
        d = R.randint(dmin(k), degs[min(dim, len(degs)) - 1])
        if d ** dim > 4000:
            continue
        ls = olist(k, dim, d)
        if len(ls) <= cap:
            return k, dim, d, ls


def n_cases(a, b):
    return b if A.level else a


def g_enum():
    c = core()
    for k in SETS:
        for dim in range(1, 5):
            for d in range(dmin(k), (16, 9, 5, 3)[dim - 1] if not A.level else (40, 14, 7, 4)[dim - 1]):
                begin('core.iterator_list_indices(%d, %d, %r)' % (dim, d, k), dim > 1)
                ls = olist(k, dim, d)
                r = c.iterator_list_indices(dim, d, index_set=k)
                if r.shape != (len(ls), dim) or [tuple(int(x) for x in m) for m in r] != ls:
                    fail('lists %s' % r.tolist())
                if c.iterator_size(dim, d, index_set=k) != len(ls):
                    fail('size is %s' % c.iterator_size(dim, d, index_set=k))


def g_lookup():
    c = core()
    for k in ('triangle', 'cube'):
        for dim in range(1, 5):
            for d in range(0, (30, 9, 5, 3)[dim - 1]):
                for i, m in enumerate(olist(k, dim, d)):
                    for mm in (list(m), np.array(m)):
                        begin('core.iterator_index(%r, %r)' % (mm, k), dim > 1)
                        if c.iterator_index(mm, index_set=k) != i:
                            fail('index is %s, position is %d' % (c.iterator_index(mm, index_set=k), i))


def g_degree():
    c = core()
    for k in SETS:
        for dim in range(1, 5):
            for d in range(dmin(k), (40, 12, 6, 4)[dim - 1]):
                n = len(olist(k, dim, d))
                begin('core.iterator_get_degree(%d, %d, %r)' % (dim, n, k), dim > 1)
                r = c.iterator_get_degree(dim, n, index_set=k)
                if r != d:
                    fail('recovers %s, expected %d' % (r, d))


def g_grid():
    import re
    c = core()
    old = set(os.listdir('/tmp'))
    try:
        for dim, body, f in ((1, '1.25*v[0] - 0.5 + 0*%d' % os.getpid(), lambda y: 1.25 * y[0] - .5),
                             (2, 'v[0] + 3*v[1]*v[1] - v[0]*v[1] + 0*%d' % os.getpid(), lambda y: y[0] + 3 * y[1] ** 2 - y[0] * y[1]),
                             (3, 'v[0] - 2*v[1] + v[2]*v[0] + cos(v[1]) + 0*%d' % os.getpid(), lambda y: y[0] - 2 * y[1] + y[2] * y[0] + math.cos(y[1]))):
            for t in range(n_cases(25, 120)):
                nodes = [np.array([R.uniform(-2, 2) for _ in range(R.randint(1, 5))]) for _ in range(dim)]
                if R.randint(0, 1):
                    n = R.randint(1, 5)
                    nodes = np.array([[R.uniform(-2, 2) for _ in range(n)] for _ in range(dim)])
                tr, di = rvec(dim) if 0 else np.array([R.uniform(-1, 1) for _ in range(dim)]), np.array([[R.uniform(-1, 1) for _ in range(dim)] for _ in range(dim)])
                begin('core.discretize(%r, %r, %r, %r)' % (body, nodes, tr, di), dim > 1)
                r = c.discretize(body, nodes, tr, di)
                e = np.array([f(tr + di.dot(np.array(x))) for x in itertools.product(*nodes)])
                same(r, e, 1 + np.abs(e), 'discretize')
    finally:
        for x in set(os.listdir('/tmp')) - old:
            if re.fullmatch(r'[0-9]+\.(cpp|so)', x):
                try:
                    if x.endswith('.so'):
                        os.unlink('/tmp/' + x)
                    elif ('0*%d' % os.getpid()) in open('/tmp/' + x).read():
                        os.unlink('/tmp/' + x)
                except OSError:
                    pass


def herm(n, x):
    a, b = np.ones_like(x), x
    if n == 0:
        return a
    for i in range(1, n):
        a, b = b, (x * b - math.sqrt(i) * a) / math.sqrt(i + 1)
    return b


def basis(f, n, x):
    if not f:
        return herm(n, x)
    w = (n + 1) // 2
    return np.full_like(x, 1 / math.sqrt(2 * math.pi)) if n == 0 else (np.sin(w * x) if n % 2 else np.cos(w * x)) / math.sqrt(math.pi)


def rgrid(dim, mx, fourier):
    n = [R.randint(1, mx) for _ in range(dim)]
    nodes = [np.array([R.uniform(-2, 2) for _ in range(q)]) for q in n]
    w = [np.array([R.uniform(-1, 1) for _ in range(q)]) for q in n]
    return nodes, w, [R.randint(0, 1) if fourier else 0 for _ in range(dim)]


def tables(ls, nodes, fo):
    """T[a, p]: basis function a at grid point p;  W[p] helper index list"""
    T = np.ones((len(ls), 1))
    B = np.ones((len(ls), 1))
    for j, x in enumerate(nodes):
        V = np.array([basis(fo[j], m[j], x) for m in ls])
        T = (T[:, :, None] * V[:, None, :]).reshape(len(ls), -1)
        B = (B[:, :, None] * (1 + np.abs(V[:, None, :]))).reshape(len(ls), -1)
    return T, B


def gweights(w):
    W = np.ones(1)
    for x in w:
        W = (W[:, None] * x[None, :]).reshape(-1)
    return W


def g_transform():
    c = core()
    for t in range(n_cases(250, 1500)):
        k, dim, d, ls = par((1, 3), (9, 5, 3))
        nodes, w, fo = rgrid(dim, 4, d % 2 == 0 and R.randint(0, 1))
        T, B = tables(ls, nodes, fo)
        W = gweights(w)
        kw = {'do_fourier': fo} if any(fo) or R.randint(0, 1) else {}
        f = rvec(len(W))
        begin('core.transform(%d, %r, %r, %r, True, %r, %r)' % (d, f.tolist(), [x.tolist() for x in nodes], [x.tolist() for x in w], fo, k), dim > 1)
        same(c.transform(d, f, nodes, w, True, index_set=k, **kw), T.dot(W * f), 1e-300 + B.dot(np.abs(W * f)), 'forward transform')
        g = rvec(len(ls))
        begin('core.transform(%d, %r, %r, %r, False, %r, %r)' % (d, g.tolist(), [x.tolist() for x in nodes], [x.tolist() for x in w], fo, k), dim > 1)
        same(c.transform(d, g, nodes, w, False, index_set=k, **kw), g.dot(T), 1e-300 + np.abs(g).dot(B), 'backward transform')
        begin('core.integrate(%r, %r, %r, %r)' % (f.tolist(), [x.tolist() for x in nodes], [x.tolist() for x in w], fo), dim > 1)
        same(np.array(c.integrate(f, nodes, w, **kw)), np.array((W * f).sum()), 1e-300 + np.abs(W * f).sum(), 'integral')


def htri(i, j, k):
    s = i + j + k
    if s % 2:
        return 0.
    s //= 2
    if s < max(i, j, k):
        return 0.
    F = math.factorial
    return math.sqrt(F(i) * F(j) * F(k)) / (F(s - i) * F(s - j) * F(s - k))


def ftri(a, b, c):
    n = 2 * ((a + b + c) // 2 + 3) + 1
    x = 2 * math.pi * np.arange(n) / n
    return float((basis(1, a, x) * basis(1, b, x) * basis(1, c, x)).sum() * 2 * math.pi / n)


def g_triple(f='triple_products', t=htri, step=1):
    c = core()
    for d in range(0, 9 if not A.level else 15, step):
        begin('core.%s(%d)' % (f, d), d > 0)
        e = np.array([[[t(k, i, j) for j in range(d + 1)] for i in range(d + 1)] for k in range(2 * d + 1)])
        same(getattr(c, f)(d), e, 1 + np.abs(e), f)


def g_fourier():
    g_triple('triple_products_fourier', ftri, 2)


def g_varf():
    c = core()
    for t in range(n_cases(60, 400)):
        k, dim, d, ls = par((1, 2), (6, 3), 40)
        nodes, w, fo = rgrid(dim, 4, d % 2 == 0 and R.randint(0, 1))
        f = np.array([R.uniform(-1, 1) for _ in gweights(w)])
        l2 = olist(k, dim, 2 * d)
        H = tables(l2, nodes, fo)[0].dot(gweights(w) * f)
        thr = 1e-12 * max(1., float(np.linalg.norm(H)))
        e = np.zeros((len(ls), len(ls)))
        T = [np.array([[[(ftri if fo[q] else htri)(a, i, j) for j in range(max(1, d) + 1)] for i in range(max(1, d) + 1)] for a in range(2 * max(1, d) + 1)]) for q in range(dim)]
        L = np.array(ls)
        for a, m in enumerate(l2):
            if abs(H[a]) >= thr:
                P = np.full(e.shape, H[a])
                for q in range(dim):
                    P = P * T[q][m[q]][np.ix_(L[:, q], L[:, q])]
                e += P
        tol = 1e-9 * max(np.abs(H).max(), np.abs(e).max()) + 10 * thr
        for sp in (False, True):
            begin('core.varf(%d, %r, %r, %r, sparse=%r, do_fourier=%r, index_set=%r)' % (d, f.tolist(), [x.tolist() for x in nodes], [x.tolist() for x in w], sp, fo, k), dim > 1)
            same(c.varf(d, f, nodes, w, sparse=sp, do_fourier=fo, index_set=k), e, tol, 'varf', 1)


def csr(m):
    import scipy.sparse as ss
    return ss.csr_matrix(m)


def g_varfd():
    c = core()
    for t in range(n_cases(120, 800)):
        k, dim, d, ls = par((1, 3), (8, 4, 2), 60)
        fo = R.randint(0, 1) if k == 'cube' and d % 2 == 0 else 0
        pos = {m: i for i, m in enumerate(ls)}
        v, q = rmat(len(ls), None, R.choice((40, 100))), R.randint(0, dim - 1)
        e = np.zeros(v.shape)
        for j, m in enumerate(ls):
            x = m[q]
            if x:
                y, f = (x - 1, math.sqrt(x)) if not fo else (x + 1, (x + 1) // 2) if x % 2 else (x - 1, -(x // 2))
                e[:, j] = f * v[:, pos[m[:q] + (y,) + m[q + 1:]]]
        for a, w in ((v, 'dense'), (csr(v), 'sparse')):
            begin('core.varfd(%d, %d, %d, %s %r, %d, %r)' % (dim, d, q, w, v.tolist() if len(ls) < 7 else '', fo, k), dim > 1)
            same(c.varfd(dim, d, q, a, do_fourier=fo, index_set=k), e, e, 'varfd')


def parts(dim):
    p = list(range(dim))
    R.shuffle(p)
    out = []
    while p:
        n = R.randint(1, len(p))
        out.append(p[:n])
        p = p[n:]
    return out


def g_tvec():
    c = core()
    for t in range(n_cases(150, 900)):
        k, dim, d, ls = par((1, 4), (8, 5, 3, 2))
        inp, e = {}, np.ones(len(ls))
        for p in parts(dim):
            order = list(frozenset(p))      # the order in which the wrapper hands the directions over
            if k == 'rectangle' and order != sorted(order):
                break
            sub = {m: i for i, m in enumerate(olist(k, len(p), d))}
            v = rvec(len(sub))
            inp[frozenset(p)] = v
            e *= np.array([v[sub[tuple(m[q] for q in order)]] for m in ls])
        else:
            begin('core.tensorize(%r, %r)' % ({tuple(a): b.tolist() for a, b in inp.items()}, k), dim > 1)
            same(c.tensorize(inp, index_set=k), e, e, 'tensorize (directions)')
        ax = [rvec(d + 1) for _ in range(dim)]
        begin('core.tensorize(%r, %r)' % ([x.tolist() for x in ax], k), dim > 1)
        e = np.array([math.prod(ax[q][m[q]] for q in range(dim)) for m in ls])
        same(c.tensorize(ax, index_set=k), e, e, 'tensorize (axes)')
        q = R.randint(0, dim - 1)
        begin('core.tensorize(%r, %d, %d, %r)' % (ax[q].tolist(), dim, q, k), dim > 1)
        e = np.array([0. if any(x for i, x in enumerate(m) if i != q) else ax[q][m[q]] for m in ls])
        same(c.tensorize(ax[q], dim, q, index_set=k), e, e, 'tensorize (one direction)')


def g_tmat():
    c = core()
    for t in range(n_cases(70, 400)):
        k, dim, d, ls = par((1, 3), (6, 4, 2), 40)
        L, inp, e = np.array(ls), {}, np.ones((len(ls), len(ls)))
        ps = [sorted(p) for p in parts(dim)]
        for p in ps:
            sub = {m: i for i, m in enumerate(olist(k, len(p), d))}
            v = rmat(len(sub), None, R.choice((50, 100)))
            inp[frozenset(p)] = v
            ix = [sub[tuple(m[q] for q in list(frozenset(p)))] for m in ls]
            e *= v[np.ix_(ix, ix)]
        ax = [rmat(d + 1) for _ in range(dim)]
        f = np.ones(e.shape)
        for q in range(dim):
            f *= ax[q][np.ix_(L[:, q], L[:, q])]
        q = R.randint(0, dim - 1)
        g = ax[q][np.ix_(L[:, q], L[:, q])].copy()
        for r in range(dim):
            if r != q:
                g *= L[:, r][:, None] == L[:, r][None, :]
        for sp in (False, True):
            for cv, w in ((lambda x: x, 'dense'), (csr, 'sparse')):
                for a, b, z in (({s: cv(x) for s, x in inp.items()}, e, 'directions %s' % ps), ([cv(x) for x in ax], f, 'axes')):
                    begin('core.tensorize(%s matrices, %s, sparse=%r, index_set=%r) dim=%d degree=%d' % (w, z, sp, k, dim, d), dim > 1)
                    same(c.tensorize(a, sparse=sp, index_set=k), b, b, 'tensorize')
                begin('core.tensorize(%s matrix, %d, %d, sparse=%r, index_set=%r) degree=%d' % (w, dim, q, sp, k, d), dim > 1)
                same(c.tensorize(cv(ax[q]), dim, q, sparse=sp, index_set=k), g, g, 'tensorize (one direction)')


def g_project():
    c = core()
    for t in range(n_cases(200, 1200)):
        k, dim, d, ls = par((1, 4), (8, 5, 3, 2), 80)
        dirs = sorted(R.sample(range(dim), R.randint(1, dim)))
        if k != 'rectangle' and R.randint(0, 1):
            R.shuffle(dirs)
        pos = {m: i for i, m in enumerate(ls)}
        sub = olist(k, len(dirs), d)
        at = []
        for n in sub:
            m = [0] * dim
            for i, q in enumerate(dirs):
                m[q] = n[i]
            at.append(pos.get(tuple(m)))
        if None in at:
            continue
        v, M = rvec(len(ls)), rmat(len(ls), None, 60)
        arg = dirs[0] if len(dirs) == 1 and R.randint(0, 1) else dirs
        begin('core.project(vector, %d, %r, %r) degree=%d' % (dim, arg, k, d), dim > 1)
        same(c.project(v, dim, arg, index_set=k), v[at], v[at], 'project vector')
        e = M[np.ix_(at, at)]
        for a, w in ((M, 'dense'), (csr(M), 'sparse')):
            begin('core.project(%s matrix, %d, %r, %r) degree=%d' % (w, dim, arg, k, d), dim > 1)
            same(c.project(a, dim, arg, index_set=k), e, e, 'project matrix')


def g_inner():
    c = core()
    for t in range(n_cases(200, 1200)):
        k, D = R.choice(SETS), R.randint(1, 4)
        alld = sorted(R.sample(range(6), D))
        d1, d2 = [], []
        for x in alld:
            q = R.randint(1, 3)
            d1 += [x] if q & 1 else []
            d2 += [x] if q & 2 else []
        if not d1 or not d2:
            continue
        d = R.randint(dmin(k), (8, 5, 3, 2)[D - 1])
        l1, l2 = olist(k, len(d1), d), olist(k, len(d2), d)
        s1, s2 = rvec(len(l1)), rvec(len(l2))
        dr = [x for x in alld if (x in d1) != (x in d2)]
        lr = olist(k, len(dr), d) if dr else [()]
        pr = {m: i for i, m in enumerate(lr)}
        e, S = np.zeros(len(lr)), np.zeros(len(lr))
        for a, m1 in enumerate(l1):
            D1 = dict(zip(d1, m1))
            for b, m2 in enumerate(l2):
                D2 = dict(zip(d2, m2))
                if any(D1[x] != D2[x] for x in d1 if x in D2):
                    continue
                cm = tuple(D1[x] for x in d1 if x in D2)
                if cm and not inset(k, d, cm):
                    continue
                i = pr.get(tuple(D1[x] if x in D1 else D2[x] for x in dr))
                if i is not None:
                    e[i] += s1[a] * s2[b]
                    S[i] += abs(s1[a] * s2[b])
        begin('core.inner(%r, %r, %r, %r, %r)' % (s1.tolist(), s2.tolist(), d1, d2, k), D > 1)
        same(c.inner(s1, s2, d1, d2, index_set=k), e, S, 'inner')


def g_sparse():
    c = core()
    for t in range(n_cases(250, 1500)):
        n, m = R.randint(1, 7), R.randint(1, 7)
        a = rmat(n, m, R.choice((0, 20, 50, 100)))
        begin('sparse %r' % a.tolist(), n > 1 and m > 1)
        s = c.to_cpp(csr(a))
        if (s.size1(), s.size2()) != (n, m):
            fail('shape of the converted sparse matrix')
        r = c.to_numpy(s)
        same(r, a, a, 'csr_matrix to C++ and back')
        if r.nnz != np.count_nonzero(a):
            fail('%d entries stored, the matrix has %d nonzeros' % (r.nnz, np.count_nonzero(a)))
        same(c.to_numpy(h.full(s)), a, a, 'full')
        same(c.to_csr(h.to_spmat(c.to_cpp(a))), a, a, 'to_spmat of a dense matrix')
        same(c.to_numpy(c.to_cpp(a)), a, a, 'dense to C++ and back')
        same(c.to_numpy(c.to_cpp(a[0])), a[0], a[0], 'vector to C++ and back')
        same(c.to_numpy(c.to_cpp(a.tolist())), a, a, 'list to C++ and back')


def g_nested():
    core()
    import hermipy as hm
    for t in range(n_cases(120, 600)):
        k, dim, d, ls = par((1, 3), (12, 6, 3))
        if k == 'cross_nc':
            continue
        e = R.randint(dmin(k), d)
        sub = olist(k, dim, e)
        v, M = rvec(len(ls)), rmat(len(ls), None, 70)
        pos = hm.Position(dim=dim)
        begin('Series.subdegree(%d) from degree %d, dim=%d index_set=%r' % (e, d, dim, k), dim > 1)
        S = hm.Series(v, pos, index_set=k)
        at = [ls.index(m) for m in sub]
        r = S.subdegree(e)
        if r.degree != e or [tuple(int(x) for x in m) for m in r.multi_indices()] != sub:
            fail('degree or multi-indices of the truncated series')
        same(r.coeffs, v[at], v[at], 'truncated series')
        up = S.subdegree(d + 2)
        big = olist(k, dim, d + 2)
        x = np.zeros(len(big))
        for i, m in enumerate(ls):
            x[big.index(m)] = v[i]
        same(up.coeffs, x, x, 'extended series')
        begin('Varf.subdegree(%d) from degree %d, dim=%d index_set=%r' % (e, d, dim, k), dim > 1)
        for a in (M, csr(M)):
            W = hm.Varf(a, pos, index_set=k).subdegree(e)
            same(W.matrix, M[np.ix_(at, at)], M[np.ix_(at, at)], 'truncated matrix')


def g_coarsen():
    core()
    import importlib
    lib = importlib.import_module('hermipy.lib')
    signal.signal(signal.SIGALRM, lambda *a: fail('does not return'))

    def oracle(a, b):
        comp = []
        for s in list(a) + list(b):
            s = set(s)
            for t in [t for t in comp if t & s]:
                comp.remove(t)
                s |= t
            if s:
                comp.append(s)
        return {frozenset(t) for t in comp}

    def one(a, b, empty):
        a2, b2 = set(a), set(b)
        if empty & 1:
            b2.add(frozenset())
        if empty & 2:
            a2.add(frozenset())
            b2.add(frozenset())
        sh = lambda q: '{' + ', '.join(str(sorted(x)) for x in sorted(q, key=sorted)) + '}'      # noqa: E731
        begin('finest_common(%s, %s)' % (sh(a2), sh(b2)), len(a2) > 1)
        ca, cb = set(a2), set(b2)
        signal.alarm(20)
        r = lib.finest_common(a2, b2)
        signal.alarm(0)
        if a2 != ca or b2 != cb:
            fail('an argument was modified')
        want = oracle(a, b)
        if {frozenset(x) for x in r if x} != want or len([x for x in r if x]) != len(want):
            fail('returns %s, the finest common coarsening is %s' % (sh(r), sh(want)))

    def parts(s):
        if not s:
            yield []
            return
        x, rest = s[0], s[1:]
        for p in parts(rest):
            yield [[x]] + p
            for i in range(len(p)):
                yield p[:i] + [[x] + p[i]] + p[i + 1:]
    for n in range(0, 5 if A.level == 0 else 6):
        P = [frozenset(frozenset(q) for q in p) for p in parts(list(range(n)))]
        for a in P:
            for b in P:
                one(a, b, R.randint(0, 3) if n else 0)
    for _ in range(1500 if A.level == 0 else 20000):
        n = R.randint(1, 12)
        base = R.sample(range(40), n)

        def rp():
            k = R.randint(1, n)
            d = {}
            for x in base:
                d.setdefault(R.randint(1, k), set()).add(x)
            return frozenset(frozenset(v) for v in d.values())
        one(rp(), rp(), R.randint(0, 3))


def g_position():
    core()
    import hermipy.position as hp
    import hermipy.quad as hq
    import sympy
    P, Q = hp.Position, hq.Quad

    def rpos(dirs, data, diag=True):
        n = len(dirs)
        mean, cov = np.array([data[d][0] for d in dirs]), np.diag([data[d][1] for d in dirs]).reshape(n, n)
        if not diag:
            cov = cov + .25 * (np.ones((n, n)) - np.eye(n))
        return P(dirs=list(dirs), mean=mean, cov=cov, types=[data[d][2] for d in dirs])

    def rdata():
        return {d: (R.choice([0., 1., -.5, R.uniform(-3, 3)]), R.choice([1., 4., R.uniform(.01, 5)]), R.choice(['hermite', 'fourier'])) for d in range(12)}

    def snap(p):
        return (list(p.dirs), p.mean.tolist(), p.cov.tolist(), list(p.types))

    def has(p, dirs, data, what):
        n = len(dirs)
        if list(p.dirs) != list(dirs) or p.dim != n or len(p.mean) != n or p.cov.shape != (n, n) or len(p.types) != n or not p.is_diag:
            fail('%s has directions %s, not %s' % (what, p.dirs, dirs))
        for i, d in enumerate(dirs):
            got = (float(p.mean[i]), float(p.cov[i][i]), p.types[i])
            if got != data[d]:
                fail('%s: direction %d has (mean, variance, type) %s, not %s' % (what, d, got, data[d]))
            for j in range(n):
                if j != i and p.cov[i][j] != 0:
                    fail('%s: covariance %d %d is %r' % (what, i, j, p.cov[i][j]))

    def raises(f, what):
        try:
            f()
        except Exception:
            return
        fail('accepts ' + what)

    for _ in range(600 if A.level == 0 else 6000):
        data = rdata()
        n = R.randint(1, 6)
        dirs = R.sample(range(12), n)
        if R.randint(0, 2):
            dirs.sort()
        p = rpos(dirs, data)
        s0 = snap(p)
        sub = sorted(R.sample(dirs, R.randint(0, n)))
        begin('Position(dirs=%s).project(%s)' % (dirs, sub), n > 1)
        has(p.project(list(sub)), sub, data, 'the projection')
        d = R.choice(dirs)
        begin('Position(dirs=%s).project(%d)' % (dirs, d), n > 1)
        has(p.project(d), [d], data, 'the projection')
        if len(sub) > 1:
            begin('Position(dirs=%s).project(%s)' % (dirs, sub[::-1]))
            raises(lambda: p.project(sub[::-1]), 'directions that are not sorted')
        if n > 1:
            begin('Position(dirs=%s, not diagonal).project(%s)' % (dirs, sub))
            q = rpos(dirs, data, False)
            raises(lambda: q.project(list(sub)), 'a covariance that is not diagonal')
            raises(lambda: P.tensorize([q, rpos([d], data)]), 'a covariance that is not diagonal')
        if snap(p) != s0:
            fail('project modifies the position')
    for _ in range(600 if A.level == 0 else 6000):
        data = rdata()
        k = R.randint(1, 4)
        pool = list(range(R.randint(2, 12)))
        cnt, args = {d: 0 for d in pool}, []
        for _ in range(k):
            free = [d for d in pool if cnt[d] < (2 if R.randint(0, 1) else 1)]
            dd = R.sample(free, R.randint(0 if R.randint(0, 5) == 0 else min(1, len(free)), min(4, len(free))))
            if R.randint(0, 2):
                dd.sort()
            for d in dd:
                cnt[d] += 1
            args.append(dd)
        want = [d for d in pool if cnt[d] == 1]
        ps = [rpos(a, data) for a in args]
        s0 = [snap(p) for p in ps]
        begin('Position.tensorize(directions %s)' % args, k > 1)
        r = P.tensorize(ps)
        if k == 1:
            has(r, args[0], data, 'the product')
        else:
            has(r, want, data, 'the product')
            if k == 2:
                has(ps[0] * ps[1], want, data, 'the product *')
        if [snap(p) for p in ps] != s0:
            fail('tensorize modifies a position')
        tw = [d for d in pool if cnt[d] == 2]
        if tw:
            d = R.choice(tw)
            i = next(j for j in reversed(range(k)) if d in args[j])
            m, v, t = data[d]
            d2 = dict(data)
            d2[d] = (m + 1, v, t) if R.randint(0, 1) else (m, v + 1, t)
            begin('Position.tensorize(directions %s), direction %d with another mean or variance in argument %d' % (args, d, i))
            raises(lambda: P.tensorize(ps[:i] + [rpos(args[i], d2)] + ps[i + 1:]), 'a shared direction with a different mean or variance')
            begin('Position.tensorize(directions %s + [%d])' % (args, d))
            raises(lambda: P.tensorize(ps + [rpos([d], data)]), 'a direction that appears three times')
    for _ in range(60 if A.level == 0 else 500):
        data = rdata()
        k = R.randint(1, 3)
        pool = R.sample(range(5), R.randint(k, 5))
        args = [[] for _ in range(k)]
        for i, d in enumerate(pool):
            args[i if i < k else R.randint(0, k - 1)].append(d)
        args = [sorted(a) for a in args]
        npts = R.randint(2, 4)
        nodes = {d: rvec(npts) for d in pool}
        weights = {d: rvec(npts) for d in pool}
        X = {d: sympy.Symbol('x%d' % d, real=True) for d in pool}
        fac = {d: sympy.exp(-X[d] ** 2 / R.randint(1, 5)) if R.randint(0, 1) else sympy.Integer(1) for d in pool}
        qs = [Q([nodes[d] for d in a], [weights[d] for d in a], position=rpos(a, data), factor=sympy.prod([fac[d] for d in a])) for a in args]

        def hasq(q, dirs, what):
            has(q.position, dirs, data, what)
            if len(q.nodes) != len(dirs) or len(q.weights) != len(dirs):
                fail('%s has %d rows of nodes' % (what, len(q.nodes)))
            for i, d in enumerate(dirs):
                if not np.array_equal(q.nodes[i], nodes[d]) or not np.array_equal(q.weights[i], weights[d]):
                    fail('%s: nodes or weights of direction %d are those of another' % (what, d))
            if sympy.simplify(q.factor.sym - sympy.prod([fac[d] for d in dirs])) != 0:
                fail('%s has factor %s' % (what, q.factor.sym))
        begin('Quad.tensorize(directions %s)' % args, k > 1)
        t = Q.tensorize(qs)
        hasq(t, sorted(pool) if k > 1 else args[0], 'the product')
        if k == 2:
            hasq(qs[0] * qs[1], sorted(pool), 'the product *')
        sub = sorted(R.sample(pool, R.randint(1, len(pool))))
        begin('Quad(directions %s).project(%s)' % (sorted(pool), sub), len(sub) > 1)
        hasq(t.project(list(sub)), sub, 'the projection')
        d = R.choice(pool)
        hasq(t.project(d), [d], 'the projection')


# ---- Series and Varf: positions 0..4 (the package has five variables), factors that are products of one function per direction
SSETS = ('triangle', 'cube', 'cross')


class World:
    def __init__(self):
        import sympy
        core()
        import hermipy.position as hp
        import hermipy.series as hs
        import hermipy.varf as hv
        import hermipy.function as hf
        self.P, self.S, self.V, self.F, self.sym = hp.Position, hs.Series, hv.Varf, hf.Function, sympy
        self.pt = {d: R.uniform(.3, 1.7) for d in range(5)}

    def data(self):
        sy = self.sym
        X = {d: sy.Symbol('x%d' % d, real=True) for d in range(5)}
        self.d = {d: (R.choice([0., 1., -.5, R.uniform(-3, 3)]), R.choice([1., 4., R.uniform(.01, 5)]), R.choice(['hermite', 'fourier'])) for d in range(5)}
        self.f = {d: R.choice([sy.Integer(1), sy.exp(-X[d] ** 2 / R.randint(1, 4)), X[d] ** 2 + 0 if R.randint(0, 1) else sy.cos(X[d])]) for d in range(5)}

    def pos(self, dirs, d=None):
        d = d or self.d
        n = len(dirs)
        return self.P(dirs=list(dirs), mean=np.array([d[i][0] for i in dirs]), cov=np.diag([d[i][1] for i in dirs]).reshape(n, n), types=[d[i][2] for i in dirs])

    def fac(self, dirs):
        return self.sym.Integer(1) * self.sym.prod([self.f[d] for d in dirs])

    def num(self, e):
        return complex(self.sym.N(e.subs({self.sym.Symbol('x%d' % d, real=True): v for d, v in self.pt.items()})))

    def meta(self, r, dirs, fac, k, what, d=None):
        d, p = d or self.d, r.position
        n = len(dirs)
        if list(p.dirs) != list(dirs) or p.dim != n or len(p.mean) != n:
            fail('%s has directions %s, not %s' % (what, p.dirs, dirs))
        for i, x in enumerate(dirs):
            got = (float(p.mean[i]), float(p.cov[i][i]), p.types[i])
            if got != d[x]:
                fail('%s: direction %d has (mean, variance, type) %s, not %s' % (what, x, got, d[x]))
        if r.index_set != k and n:
            fail('%s has index set %s, not %s' % (what, r.index_set, k))
        if fac is not None and (list(r.factor.dirs) != list(dirs) or abs(self.num(r.factor.sym) - self.num(fac)) > 1e-9):
            fail('%s has factor %s on %s, not %s' % (what, r.factor.sym, r.factor.dirs, fac))

    def par(self, mx=3, cap=70, sets=SSETS, lo=0):
        while True:
            k, dim = R.choice(sets), R.randint(1, mx)
            d = R.randint(max(lo, dmin(k)), (8, 6, 4, 3)[dim - 1])
            ls = olist(k, dim, d)
            if len(ls) <= cap:
                return k, dim, d, ls


def refuses(f, what):
    try:
        f()
    except Exception:
        return
    fail('accepts ' + what)


def snapser(s):
    return (s.coeffs.copy(), list(s.position.dirs), s.position.mean.copy(), s.position.cov.copy(), s.factor.sym, list(s.factor.dirs), s.index_set, s.degree)


def unchanged(s, o, what):
    n = snapser(s)
    for a, b in zip(n, o):
        if not (np.array_equal(a, b) if isinstance(a, np.ndarray) else a == b):
            fail('%s modifies its argument' % what)


def embed(m, rel, dim):
    z = [0] * dim
    for x, r in zip(m, rel):
        z[r] = x
    return tuple(z)


def common_ops(W, make, data_of, cases):
    """+, -, negation and multiplication by a number; data_of(object) -> dense array of the entries"""
    for _ in range(cases):
        W.data()
        k, dim, d, ls = W.par()
        dirs = sorted(R.sample(range(5), dim))
        fac = W.fac(dirs) if R.randint(0, 3) else None
        a, b = make(dirs, k, len(ls), fac), make(dirs, k, len(ls), fac)
        A0, B0 = data_of(a).copy(), data_of(b).copy()
        f = fac if fac is not None else W.sym.Integer(1)
        cs = '%s on %s, %s, degree %d, %d entries' % (type(a).__name__, dirs, k, d, len(ls))
        sc = np.abs(A0) + np.abs(B0)
        begin('sum of two ' + cs, dim > 1)
        r = a + b
        W.meta(r, dirs, f, k, 'the sum')
        same(data_of(r), A0 + B0, sc, 'the sum')
        begin('difference of two ' + cs, dim > 1)
        r = a - b
        W.meta(r, dirs, f, k, 'the difference')
        same(data_of(r), A0 - B0, sc, 'the difference')
        begin('negation of ' + cs, dim > 1)
        r = -a
        W.meta(r, dirs, f, k, 'the negation')
        same(data_of(r), -A0, sc, 'the negation')
        for x in (R.randint(-5, 5), R.uniform(-2, 2), np.float64(R.uniform(-2, 2))):
            begin('multiplication by %r of %s' % (x, cs), dim > 1)
            for r in ((a * x,) if isinstance(x, np.float64) else (a * x, x * a)):
                W.meta(r, dirs, f, k, 'the multiple')
                same(data_of(r), A0 * float(x), np.abs(A0 * float(x)), 'the multiple')
            if not getattr(a, 'is_sparse', False):
                begin('addition of %r to %s' % (x, cs), dim > 1)
                r = a + x
                W.meta(r, dirs, f, k, 'the sum')
                same(data_of(r), A0 + float(x), np.abs(A0) + abs(float(x)), 'the sum')
        if not (np.array_equal(data_of(a), A0) and np.array_equal(data_of(b), B0)):
            fail('an operator modifies its argument')
        # arguments that cannot be added
        x = R.choice(dirs)
        m, v, t = W.d[x]
        d2 = dict(W.d)
        d2[x] = R.choice([(m + 1, v, t), (m, v * 1.5, t), (m, v, 'fourier' if t == 'hermite' else 'hermite')])
        begin('sum of %s and the same with another mean, variance or type in direction %d' % (cs, x))
        refuses(lambda: a + make(dirs, k, len(ls), fac, d2), 'different positions')
        begin('sum of %s and the same with another factor' % cs)
        refuses(lambda: a + make(dirs, k, len(ls), f * W.sym.Symbol('x%d' % x, real=True) ** 4), 'different factors')
        for k2 in SSETS:
            for n2 in {len(olist(k2, dim, e)) for e in range(dmin(k2), 5)}:
                if k2 != k or n2 != len(ls):
                    begin('sum of %s and one with %d entries of %s' % (cs, n2, k2), n2 == 1 or len(ls) == 1)
                    refuses(lambda: a + make(dirs, k2, n2, fac), 'different degrees or index sets')
                    refuses(lambda: a - make(dirs, k2, n2, fac), 'different degrees or index sets')
                    break


def g_series():
    W = World()

    def make(dirs, k, n, fac=None, d=None):
        return W.S(rvec(n), W.pos(dirs, d), index_set=k, **({} if fac is None else {'factor': fac}))
    common_ops(W, make, lambda s: s.coeffs, 60 if A.level == 0 else 600)
    for _ in range(200 if A.level == 0 else 2000):
        W.data()
        k, dim, d, ls = W.par(4)
        dirs = sorted(R.sample(range(5), dim))
        fac = W.fac(dirs)
        s = make(dirs, k, len(ls), fac)
        o = snapser(s)
        at = {m: s.coeffs[i] for i, m in enumerate(ls)}
        cs = 'Series on %s, %s, degree %d' % (dirs, k, d)
        x = R.choice([R.uniform(.1, 3), R.randint(1, 7)])
        begin('%s / %r' % (cs, x), dim > 1)
        r = s / x
        W.meta(r, dirs, fac, k, 'the quotient')
        same(r.coeffs, o[0] / x, np.abs(o[0]), 'the quotient')
        sub = sorted(R.sample(dirs, R.randint(1, dim)))
        begin('%s.project(%s)' % (cs, sub), dim > 1)
        for r in (s.project(list(sub)),) + ((s.project(sub[0]),) if len(sub) == 1 else ()):
            W.meta(r, sub, W.fac(sub), k, 'the projection')
            want = np.array([at[embed(m, [dirs.index(q) for q in sub], dim)] for m in olist(k, len(sub), d)])
            same(r.coeffs, want, np.abs(want), 'the projection')
        e = R.randint(dmin(k), d + 2)
        ws = olist(k, dim, e)
        if len(ws) < 400:
            begin('%s.subdegree(%d)' % (cs, e), dim > 1)
            r = s.subdegree(e)
            W.meta(r, dirs, fac, k, 'the series')
            same(r.coeffs, np.array([at.get(m, 0.) for m in ws]), np.array([abs(at.get(m, 0.)) for m in ws]), 'the series of degree %d' % e)
            if r.degree != e and len(ws) != len(olist(k, dim, r.degree)):
                fail('the degree is %d' % r.degree)
        if k == 'triangle' and d >= dim:
            e = R.randint(1, d - dim + 1)
            begin('%s.to_cross(%d)' % (cs, e), dim > 1)
            r = s.to_cross(e)
            W.meta(r, dirs, fac, 'cross', 'the series')
            want = np.array([at[m] for m in olist('cross', dim, e)])
            same(r.coeffs, want, np.abs(want), 'the series on the cross')
            begin('%s.to_cross(%d)' % (cs, d - dim + 2), dim > 1)
            refuses(lambda: s.to_cross(d - dim + 2), 'a degree that the triangle does not cover')
        elif k != 'triangle':
            begin('%s.to_cross(1)' % cs)
            refuses(lambda: s.to_cross(1), 'another index set')
        unchanged(s, o, cs)
    for _ in range(4):
        W.data()
        n = len(olist('cross_nc', 2, 2))
        begin('Series on cross_nc.subdegree(1)')
        refuses(lambda: make([0, 1], 'cross_nc', n).subdegree(1), 'an index set that is not nested')
    # products
    for _ in range(150 if A.level == 0 else 1500):
        W.data()
        while True:
            k, n = R.choice(SSETS), R.randint(1, 4)
            d = R.randint(dmin(k), (6, 4, 3, 2)[n - 1])
            union = sorted(R.sample(range(5), n))
            d1 = sorted(R.sample(union, R.randint(1, n)))
            d2 = sorted(set(union) - set(d1) | set(R.sample(d1, R.randint(0, len(d1)))))
            if d2 and len(olist(k, n, d)) <= 80:
                break
        a, b = make(d1, k, len(olist(k, len(d1), d)), W.fac(d1)), make(d2, k, len(olist(k, len(d2), d)), W.fac(d2))
        oa, ob = snapser(a), snapser(b)
        com = [x for x in d1 if x in d2]
        out = [x for x in union if x not in com]
        begin('Series on %s times Series on %s, %s, degree %d' % (d1, d2, k, d), len(union) > 1)
        A1, B1 = dict(zip(olist(k, len(d1), d), a.coeffs)), dict(zip(olist(k, len(d2), d), b.coeffs))

        def prod(A1, d1, B1, d2, out, com):
            want, sc = [], []
            lc = olist(k, len(com), d) if com else [()]
            for m in (olist(k, len(out), d) if out else [()]):
                v = dict(zip(out, m))
                t = c = 0.
                for mc in lc:
                    v.update(zip(com, mc))
                    x = A1.get(tuple(v[q] for q in d1), 0.) * B1.get(tuple(v[q] for q in d2), 0.)
                    t, c = t + x, c + abs(x)
                want.append(t)
                sc.append(c)
            return np.array(want), np.array(sc)
        want, sc = prod(A1, d1, B1, d2, out, com)
        for r in (a * b, W.S.tensorize([a, b])):
            W.meta(r, out, W.fac(out), k, 'the product')
            same(r.coeffs, want, sc, 'the product')
        if not out:
            f = float(a * b)
            if abs(f - want[0]) > 1e-9 * sc[0]:
                fail('float() of the product is %r, not %r' % (f, want[0]))
            # a product without directions is a number: times another series
            c = make(d1, k, len(A1), W.fac(d1))
            for r, w in ((W.S.tensorize([a, b, c]), c), ((a * b) * c, c), (c * (a * b), c)):
                W.meta(r, d1, W.fac(d1), k, 'the product of three')
                same(r.coeffs, w.coeffs * want[0], np.abs(w.coeffs) * sc[0], 'the product of three')
        free = [x for x in range(5) if x not in union]
        if out and free and R.randint(0, 1):
            d3 = sorted(R.sample(free, 1) + R.sample(out, R.randint(0, 1)))
            l3 = olist(k, len(d3), d)
            c = make(d3, k, len(l3), W.fac(d3))
            out3, com3 = sorted(set(out) ^ set(d3)), [x for x in out if x in d3]
            if len(olist(k, len(out3), d)) <= 150:
                begin('product of Series on %s, %s, %s, %s, degree %d' % (d1, d2, d3, k, d))
                W1, s1 = prod(dict(zip(olist(k, len(out), d), want)), out, dict(zip(l3, c.coeffs)), d3, out3, com3)
                s1 = prod(dict(zip(olist(k, len(out), d), sc)), out, dict(zip(l3, c.coeffs)), d3, out3, com3)[1]
                r = W.S.tensorize([a, b, c])
                W.meta(r, out3, W.fac(out3), k, 'the product of three')
                same(r.coeffs, W1, s1, 'the product of three')
        begin('product of one Series')
        W.meta(W.S.tensorize([a]), d1, W.fac(d1), k, 'the product')
        same(W.S.tensorize([a]).coeffs, oa[0], np.abs(oa[0]), 'the product')
        begin('Series on %s times Series on %s of another degree' % (d1, d2))
        refuses(lambda: a * make(d2, k, len(olist(k, len(d2), d + 1)), W.fac(d2)), 'different degrees')
        k2 = R.choice([x for x in SSETS if x != k])
        begin('Series on %s (%s) times Series on %s (%s)' % (d1, k, d2, k2))
        refuses(lambda: a * make(d2, k2, len(olist(k2, len(d2), max(1, d))), W.fac(d2)), 'different index sets')
        if com:
            x = R.choice(com)
            m, v, t = W.d[x]
            dd = dict(W.d)
            dd[x] = R.choice([(m + 1, v, t), (m, v * 1.5, t)])
            begin('Series on %s times Series on %s with another mean or variance in direction %d' % (d1, d2, x))
            refuses(lambda: a * make(d2, k, len(B1), W.fac(d2), dd), 'a shared direction with a different mean or variance')
            begin('Series on %s times Series on %s with another factor in direction %d' % (d1, d2, x))
            refuses(lambda: a * make(d2, k, len(B1), W.fac(d2) * W.sym.Symbol('x%d' % x, real=True) ** 4), 'factors that differ in a shared direction')
        unchanged(a, oa, 'the product')
        unchanged(b, ob, 'the product')


def g_varfobj():
    W = World()
    import scipy.sparse as ss

    def den(v):
        return np.asarray(v.matrix.todense()) if ss.issparse(v.matrix) else v.matrix

    def make(dirs, k, n, fac=None, d=None, sp=None):
        m = rmat(n, dens=R.choice([100, 60, 20]))
        sp = R.randint(0, 1) if sp is None else sp
        return W.V(ss.csr_matrix(m) if sp else m, W.pos(dirs, d), index_set=k, **({} if fac is None else {'factor': fac}))
    for sp in (0, 1):
        common_ops(W, lambda *a: make(*a, sp=sp), den, 30 if A.level == 0 else 300)
    for _ in range(150 if A.level == 0 else 1500):
        W.data()
        k, dim, d, ls = W.par(4)
        dirs = sorted(R.sample(range(5), dim))
        fac, sp = W.fac(dirs), R.randint(0, 1)
        v = make(dirs, k, len(ls), fac, sp=sp)
        M0 = den(v).copy()
        rank = {m: i for i, m in enumerate(ls)}
        cs = 'Varf (%s) on %s, %s, degree %d' % ('sparse' if sp else 'dense', dirs, k, d)

        def has(r, dd, kk, want, what):
            W.meta(r, dd, W.fac(dd), kk, what)
            same(r.matrix, want, np.abs(want), what)
        sub = sorted(R.sample(dirs, R.randint(1, dim)))
        begin('%s.project(%s)' % (cs, sub), dim > 1)
        ii = [rank[embed(m, [dirs.index(q) for q in sub], dim)] for m in olist(k, len(sub), d)]
        for r in (v.project(list(sub)),) + ((v.project(sub[0]),) if len(sub) == 1 else ()):
            has(r, sub, k, M0[np.ix_(ii, ii)], 'the projection')
        e = R.randint(dmin(k), d)
        ii = [rank[m] for m in olist(k, dim, e)]
        begin('%s.subdegree(%d)' % (cs, e), dim > 1)
        has(v.subdegree(e), dirs, k, M0[np.ix_(ii, ii)], 'the operator of degree %d' % e)
        begin('%s.subdegree(%d)' % (cs, d + 1), dim > 1)
        refuses(lambda: v.subdegree(d + 1), 'a higher degree')
        if k == 'triangle' and d >= dim:
            e = R.randint(1, d - dim + 1)
            ii = [rank[m] for m in olist('cross', dim, e)]
            begin('%s.to_cross(%d)' % (cs, e), dim > 1)
            has(v.to_cross(e), dirs, 'cross', M0[np.ix_(ii, ii)], 'the operator on the cross')
            begin('%s.to_cross(%d)' % (cs, d - dim + 2), dim > 1)
            refuses(lambda: v.to_cross(d - dim + 2), 'a degree that the triangle does not cover')
        elif k != 'triangle':
            begin('%s.to_cross(1)' % cs)
            refuses(lambda: v.to_cross(1), 'another index set')
        begin('%s applied to a series' % cs, dim > 1)
        c = rvec(len(ls))
        s = W.S(c.copy(), W.pos(dirs), index_set=k, factor=R.choice([1, W.fac(dirs)]))
        r = v(s)
        W.meta(r, dirs, fac, k, 'the image')
        same(r.coeffs, M0.dot(c), np.abs(M0).dot(np.abs(c)), 'the image')
        if not np.array_equal(s.coeffs, c) or not np.array_equal(den(v), M0):
            fail('an argument was modified')
        x = R.choice(dirs)
        m, va, t = W.d[x]
        d2 = dict(W.d)
        d2[x] = R.choice([(m + 1, va, t), (m, va * 1.5, t)])
        begin('%s applied to a series with another mean or variance in direction %d' % (cs, x))
        refuses(lambda: v(W.S(c.copy(), W.pos(dirs, d2), index_set=k)), 'another position')
        k2 = R.choice([q for q in SSETS if q != k])
        begin('%s applied to a series on %s' % (cs, k2))
        refuses(lambda: v(W.S(rvec(len(olist(k2, dim, max(1, d)))), W.pos(dirs), index_set=k2)), 'another index set')
        begin('%s applied to a series of another degree' % cs)
        refuses(lambda: v(W.S(rvec(len(olist(k, dim, max(1, d) + 1))), W.pos(dirs), index_set=k)), 'another degree')
    for _ in range(4):
        W.data()
        n = len(olist('cross_nc', 2, 2))
        begin('Varf on cross_nc.subdegree(1)')
        refuses(lambda: make([0, 1], 'cross_nc', n).subdegree(1), 'an index set that is not nested')
    for _ in range(80 if A.level == 0 else 800):
        W.data()
        while True:
            k, n = R.choice(SSETS), R.randint(1, 4)
            d = R.randint(dmin(k), (6, 4, 3, 2)[n - 1])
            ls = olist(k, n, d)
            if len(ls) <= 50:
                break
        union = sorted(R.sample(range(5), n))
        lab = [R.randint(0, 2) for _ in union]
        groups = [g for g in ([x for x, q in zip(union, lab) if q == j] for j in range(3)) if g]
        R.shuffle(groups)
        vs = [make(g, k, len(olist(k, len(g), d)), W.fac(g), sp=R.randint(0, 1)) for g in groups]
        if len({ss.issparse(v.matrix) for v in vs}) > 1:
            vs = [make(g, k, len(olist(k, len(g), d)), W.fac(g), sp=0) for g in groups]
        want = np.ones((len(ls), len(ls)))
        for g, v in zip(groups, vs):
            rk = {m: i for i, m in enumerate(olist(k, len(g), d))}
            ii = [rk[tuple(m[union.index(x)] for x in g)] for m in ls]
            want = want * den(v)[np.ix_(ii, ii)]
        keep = [den(v).copy() for v in vs]
        for kw in ({}, {'sparse': True}, {'sparse': False}):
            begin('Varf.tensorize on %s, %s, degree %d, %s' % (groups, k, d, kw or ''), len(groups) > 1)
            r = W.V.tensorize(vs, **kw)
            if len(vs) > 1:
                W.meta(r, union, W.fac(union), k, 'the product')
                if kw and ss.issparse(r.matrix) != kw['sparse']:
                    fail('the product is %s' % ('sparse' if ss.issparse(r.matrix) else 'dense'))
            else:
                W.meta(r, groups[0], W.fac(groups[0]), k, 'the product')
            same(r.matrix, want, np.abs(want), 'the product')
        if len(vs) == 2:
            begin('Varf on %s times Varf on %s, %s, degree %d' % (groups[0], groups[1], k, d))
            r = vs[0] * vs[1]
            W.meta(r, union, W.fac(union), k, 'the product')
            same(r.matrix, want, np.abs(want), 'the product')
        if len(vs) > 1:
            k2 = R.choice([q for q in SSETS if q != k])
            begin('Varf.tensorize with different index sets')
            refuses(lambda: W.V.tensorize(vs[:-1] + [make(groups[-1], k2, len(olist(k2, len(groups[-1]), max(1, d))), W.fac(groups[-1]))]), 'different index sets')
            begin('Varf.tensorize with different degrees')
            refuses(lambda: W.V.tensorize(vs[:-1] + [make(groups[-1], k, len(olist(k, len(groups[-1]), max(1, d) + 1)), W.fac(groups[-1]))]), 'different degrees')
        if any(not np.array_equal(den(v), m) for v, m in zip(vs, keep)):
            fail('an argument was modified')


# ---- quadratures at work: functions, series and operators on the grid of a Quad
class tmpclean:
    """removes the shared objects that discretize leaves in /tmp"""
    def __enter__(self):
        self.old = set(os.listdir('/tmp'))

    def __exit__(self, *a):
        import re
        for x in set(os.listdir('/tmp')) - self.old:
            if re.fullmatch(r'[0-9]+\.(cpp|so)', x):
                try:
                    os.unlink('/tmp/' + x)
                except OSError:
                    pass


def dbasis(f, n, x, a):
    """a-th derivative of basis function n"""
    if not f:
        return np.zeros_like(x) if a > n else math.sqrt(math.factorial(n) / math.factorial(n - a)) * herm(n - a, x)
    w = (n + 1) // 2
    if n == 0:
        return basis(1, 0, x) * (a == 0)
    ph = a * math.pi / 2
    return (w ** a) * (np.sin(w * x + ph) if n % 2 else np.cos(w * x + ph)) / math.sqrt(math.pi)


_tab = {}


def triple(f, d):
    """integrals of the products of three basis functions: [index <= 2 d][<= d][<= d]"""
    if ('t', f, d) not in _tab:
        x, w = (np.arange(8 * d + 8) * 2 * math.pi / (8 * d + 8), np.full(8 * d + 8, 2 * math.pi / (8 * d + 8))) if f else np.polynomial.hermite_e.hermegauss(2 * d + 4)
        w = w if f else w / w.sum()
        B = np.array([dbasis(f, i, x, 0) for i in range(2 * d + 1)])
        _tab['t', f, d] = np.einsum('kx,ix,jx,x->kij', B, B[:d + 1], B[:d + 1], w)
    return _tab['t', f, d]


def dermat(f, d, a):
    """[j][i]: coefficient of basis function j in the a-th derivative of basis function i"""
    D = np.zeros((d + 1, d + 1))
    for i in range(1, d + 1):
        if f:
            j, w = (i + 1 if i % 2 else i - 1), (i + 1) // 2
            if j <= d:
                D[j, i] = w if i % 2 else -w
        else:
            D[i - 1, i] = math.sqrt(i)
    return np.linalg.matrix_power(D, a)


class QWorld(World):
    def __init__(self):
        World.__init__(self)
        import hermipy.quad as hq
        import hermipy.operator as ho
        self.Q, self.O, self.settings = hq.Quad, ho.Operator, sys.modules['hermipy.settings'].settings
        self.X = [self.sym.Symbol('x%d' % d, real=True) for d in range(5)]

    def quad(self, dim, npts, fourier=True, factor=True):
        self.data()
        sy = self.sym
        self.dirs = sorted(R.sample(range(5), dim))
        for d in self.dirs:
            m, v, t = self.d[d]
            self.d[d] = (m, v, t if fourier else 'hermite')
            self.f[d] = R.choice([sy.Integer(1), sy.exp(-self.X[d] ** 2 / 4), sy.exp(-self.X[d] ** 2 / 8)]) if factor else sy.Integer(1)
        self.npts = npts
        self.nodes = [np.array([R.uniform(-2, 2) for _ in range(npts)]) for _ in self.dirs]
        self.w = [np.array([R.uniform(.1, 1) for _ in range(npts)]) for _ in self.dirs]
        self.fo = [int(self.d[d][2] == 'fourier') for d in self.dirs]
        self.W = gweights(self.w)
        self.ref = np.array(list(itertools.product(*self.nodes))).reshape(-1, dim)
        self.x = self.ref * np.sqrt([self.d[d][1] for d in self.dirs]) + np.array([self.d[d][0] for d in self.dirs])
        self.q = self.Q([n.copy() for n in self.nodes], [w.copy() for w in self.w], position=self.pos(self.dirs), factor=self.fac(self.dirs))
        return self.q

    def at(self, e, x=None):
        """values of an expression at the points of the quadrature"""
        x = self.x if x is None else x
        f = self.sym.lambdify([self.X[d] for d in self.dirs], e, 'numpy')
        return np.broadcast_to(np.asarray(f(*x.T), float), (len(x),)).copy()

    def table(self, ls, alpha=None):
        T = np.ones((len(ls), len(self.ref)))
        for j, d in enumerate(self.dirs):
            a = alpha[j] if alpha else 0
            T *= np.array([dbasis(self.fo[j], m[j], self.ref[:, j], a) for m in ls]) / math.sqrt(self.d[d][1]) ** a
        return T

    def galerkin(self, f, k, d, ls, alpha=None):
        """matrix of multiplication by f: coefficients of degree <= 2 d, times exact triple products;
        then of differentiation. For Hermite functions this is the quadrature of f * phi_i * D phi_j"""
        T2 = self.table(olist(k, len(self.dirs), 2 * d))
        c = T2.dot(self.W * f)
        V = np.zeros((len(ls), len(ls)))
        L = np.array(ls).reshape(len(ls), -1)
        for ci, m in zip(c, olist(k, len(self.dirs), 2 * d)):
            P = np.ones_like(V)
            for j in range(len(self.dirs)):
                P *= triple(self.fo[j], d)[m[j]][np.ix_(L[:, j], L[:, j])]
            V += ci * P
        if not alpha:
            return V
        D = np.ones_like(V)
        for j, x in enumerate(self.dirs):
            D *= dermat(self.fo[j], d, alpha[j])[np.ix_(L[:, j], L[:, j])] / math.sqrt(self.d[x][1]) ** alpha[j]
        return V.dot(D)

    def atom(self, d):
        x = self.X[d]
        return R.choice([x, x ** 2, x + 1, self.sym.cos(x), self.sym.exp(-x ** 2 / 4), x ** 3 - x])

    def fun(self):
        """an expression: a sum of products, mostly of functions of one variable"""
        e = self.sym.Integer(0)
        for _ in range(R.randint(1, 2)):
            t = self.sym.Rational(R.randint(1, 6), R.randint(1, 4)) * R.choice([1, -1])
            for d in R.sample(self.dirs, R.randint(0, len(self.dirs))):
                t *= self.atom(d)
            if len(self.dirs) > 1 and R.randint(0, 3) == 0:
                a, b = R.sample(self.dirs, 2)
                t *= self.sym.cos(self.X[a] * self.X[b])
            e += t
        return e.expand()

    def quadmeta(self, r, k, d, what, n):
        self.meta(r, self.dirs, self.fac(self.dirs), k, what)
        if r.degree != d and n > 1:
            fail('%s has degree %s, not %d' % (what, r.degree, d))

    def show(self):
        return 'Quad(%s, %s, directions %s, (mean, variance, type) %s, factor %s)' % ([x.tolist() for x in self.nodes], [x.tolist() for x in self.w], self.dirs, [self.d[d] for d in self.dirs], self.fac(self.dirs))

    def same_quad(self):
        for i, d in enumerate(self.dirs):
            if not np.array_equal(self.q.nodes[i], self.nodes[i]) or not np.array_equal(self.q.weights[i], self.w[i]):
                fail('the quadrature is modified')
        self.meta_pos()

    def meta_pos(self):
        p = self.q.position
        for i, d in enumerate(self.dirs):
            if (p.dirs[i], float(p.mean[i]), float(p.cov[i][i]), p.types[i]) != (d,) + self.d[d]:
                fail('the position of the quadrature is modified')


def dense(m):
    return np.asarray(m.todense()) if hasattr(m, 'todense') else np.asarray(m)


def qpar(W, cap):
    """index set, degree and multi-indices for a quadrature (Fourier directions: even degree)"""
    while True:
        dim = R.choice((1, 2, 2, 3))
        k = R.choice(('triangle', 'cube', 'cross'))
        d = R.randint(1, (6, 4, 2)[dim - 1])
        ls = olist(k, dim, d)
        if len(ls) <= cap:
            return dim, k, d, ls


def g_quadop():
    W = QWorld()
    with tmpclean():
        quadop(W)


def quadop(W):
    S = W.settings

    def check(M, e, what, k, d, ls, scale):
        W.quadmeta(M, k, d, what, len(ls))
        same(dense(M.matrix), e, 1e-300 + scale, what, 1e-8)
    # grid values: no compilation
    for t in range(n_cases(150, 900)):
        dim, k, d, ls = qpar(W, 30)
        q = W.quad(dim, R.randint(2, 4), fourier=d % 2 == 0)
        f = np.array([R.uniform(-1, 1) for _ in W.W])
        f0 = f.copy()
        T = W.table(ls)
        sp = R.choice((None, True, False))
        S.update(sparse=R.choice((True, False)), tensorize=R.choice((True, False)))
        kw = {} if sp is None else {'sparse': sp}
        if k != 'triangle' or R.randint(0, 1):
            kw['index_set'] = k
        begin('%s.varf(%s, %d, %s)' % (W.show(), f.tolist(), d, kw), dim > 1)
        e = W.galerkin(f, k, d, ls)
        check(q.varf(f, d, **kw), e, 'varf', k, d, ls, (np.abs(T) * np.abs(W.W * f)).dot(np.abs(T).T).max() + 1)
        can = [x for i, x in enumerate(W.dirs) if not W.fo[i] or k == 'cube' or dim == 1]
        ds = [R.choice(can) for _ in range(R.randint(0, 3))] if can else []
        ds += [x for x in range(5) if x not in W.dirs and R.randint(0, 4) == 0]
        R.shuffle(ds)
        alpha = [ds.count(x) for x in W.dirs]
        begin('%s.varfd(%s, %d, %s, %s)' % (W.show(), f.tolist(), d, ds, kw), dim > 1)
        e = W.galerkin(f, k, d, ls, alpha)
        sc = np.prod([1 / math.sqrt(W.d[x][1]) ** a * (max(1, d) ** a) for x, a in zip(W.dirs, alpha)])
        check(q.varfd(f, d, list(ds), **kw), e, 'varfd', k, d, ls, (np.abs(T) * np.abs(W.W * f)).dot(np.abs(T).T).max() * sc + sc)
        if not np.array_equal(f, f0):
            fail('the argument is modified')
        W.same_quad()
    # functions: with and without tensorisation, sparse or not
    for t in range(n_cases(28, 100)):
        dim, k, d, ls = qpar(W, 16)
        q = W.quad(dim, R.randint(2, 4), fourier=d % 2 == 0 and (k == 'cube' or dim == 1))
        u = W.fun()
        f = W.at(u)
        T = W.table(ls)
        can = [x for i, x in enumerate(W.dirs) if not W.fo[i] or k == 'cube' or dim == 1]
        ds = sorted(R.choice(can) for _ in range(R.randint(1, 2))) if can else []
        D = W.table(ls, [ds.count(x) for x in W.dirs])
        sc = 1 + np.abs(f).max() * np.abs(T).max() ** 2 * len(f)
        sd = 1 + np.abs(f).max() * np.abs(T).max() * np.abs(D).max() * len(f)
        for tens in (True, False) if k != 'cross' or dim == 1 else (False,):
            for sp in (True, False):
                arg = R.choice((u, str(u), W.F(u, dirs=W.dirs)))
                how = {'tensorize': tens, 'sparse': sp}
                if R.randint(0, 1):
                    S.update(how)
                    how = {}
                begin('%s.varf(%r, %d, %s, %s)' % (W.show(), str(u), d, k, {'tensorize': tens, 'sparse': sp}), dim > 1)
                check(q.varf(arg, d, index_set=k, **how), W.galerkin(f, k, d, ls), 'varf', k, d, ls, sc)
                begin('%s.varfd(%r, %d, %s, %s, %s)' % (W.show(), str(u), d, ds, k, {'tensorize': tens, 'sparse': sp}), dim > 1)
                check(q.varfd(arg, d, list(ds), index_set=k, **how), W.galerkin(f, k, d, ls, [ds.count(x) for x in W.dirs]), 'varfd', k, d, ls, sd)
        W.same_quad()
    # operators: apply the differential operator to factor * basis function, divide by the factor
    sy = W.sym
    for t in range(n_cases(14, 60)):
        dim, k, d, ls = qpar(W, 9)
        if k == 'cross' and dim > 1:    # products of two functions of the cross are not in the cross of twice the degree
            k, ls = 'triangle', olist('triangle', dim, d)
        q = W.quad(dim, R.randint(2, 4), fourier=False, factor=bool(R.randint(0, 2)))
        g = sy.Function('f')(*[W.X[x] for x in W.dirs])
        terms = []
        for _ in range(R.randint(0, 3)):
            c = sy.Rational(R.randint(1, 4), 2) * R.choice([sy.Integer(1)] + [W.X[x] for x in W.dirs] + [sy.cos(W.X[W.dirs[-1]])])
            der = [R.choice(W.dirs) for _ in range(R.randint(0, 2))]
            terms.append((c, der))

        def apply(u):
            r = sy.Integer(0)
            for c, der in terms:
                v = u
                for x in der:
                    v = sy.diff(v, W.X[x])
                r += c * v
            return r
        L = apply(g)
        fac = W.fac(W.dirs)
        cols = []
        for m in ls:
            phi = fac
            for x, i in zip(W.dirs, m):
                z = (W.X[x] - sy.Float(W.d[x][0], 17)) / sy.sqrt(sy.Float(W.d[x][1], 17))
                a, b = sy.Integer(1), z
                for j in range(1, i):
                    a, b = b, (z * b - sy.sqrt(j) * a) / sy.sqrt(j + 1)
                phi = phi * (a if i == 0 else b)
            cols.append(W.at(apply(phi) / fac))
        T = W.table(ls)
        C = np.array(cols)
        e = (T * W.W).dot(C.T)
        sc = 1 + np.abs(T).max() * np.abs(C).max() * len(W.W)
        for tens in (True, False):
            S.update(tensorize=tens, sparse=R.choice((True, False)))
            sp = R.choice((None, True, False))
            begin('%s.discretize_op(%s, %d, sparse=%s, index_set=%r), settings %s' % (W.show(), L, d, sp, k, {x: S[x] for x in ('tensorize', 'sparse')}), dim > 1)
            op = W.O(L, dirs=W.dirs) if R.randint(0, 1) or L == 0 else L
            check(q.discretize_op(op, d, sparse=sp, index_set=k), e, 'discretize_op', k, d, ls, sc)
        W.same_quad()
        if dim > 1:
            begin('%s.discretize_op of an operator in the directions %s' % (W.show(), W.dirs[:-1]))
            refuses(lambda: q.discretize_op(W.O(sy.Function('f')(*[W.X[x] for x in W.dirs[:-1]]), dirs=W.dirs[:-1]), d), 'an operator in other directions')


def g_quadfn():
    W = QWorld()
    with tmpclean():
        quadfn(W)


def quadfn(W):
    S, sy = W.settings, W.sym

    def density():
        r = np.ones(len(W.x))
        for i, d in enumerate(W.dirs):
            m, v, t = W.d[d]
            if t == 'hermite':
                r *= np.exp(-(W.x[:, i] - m) ** 2 / (2 * v)) / math.sqrt(2 * math.pi * v)
        return r

    def sers(ls, k, move, scale):
        """a series in the directions of the quadrature, with its own mean and variance; its values at the points"""
        d2 = dict(W.d)
        for d in W.dirs:
            m, v, t = W.d[d]
            d2[d] = (m + R.uniform(-1, 1) if move else m, v * R.uniform(.5, 2) if scale else v, t)
        f2 = {d: R.choice([sy.Integer(1), sy.exp(-W.X[d] ** 2 / 4), sy.cos(W.X[d])]) for d in W.dirs}
        fac = sy.Integer(1) * sy.prod([f2[d] for d in W.dirs])
        c = rvec(len(ls))
        z = (W.x - np.array([d2[d][0] for d in W.dirs])) / np.sqrt([d2[d][1] for d in W.dirs])
        T = np.ones((len(ls), len(z)))
        for j in range(len(W.dirs)):
            T *= np.array([dbasis(W.fo[j], m[j], z[:, j], 0) for m in ls])
        return W.S(c, W.pos(W.dirs, d2), factor=fac, index_set=k), c.dot(T) * W.at(fac), np.abs(c).dot(np.abs(T)).max() + 1e-300
    for t in range(n_cases(60, 400)):
        dim, k, d, ls = qpar(W, 40)
        q = W.quad(dim, R.randint(2, 4), fourier=d % 2 == 0)
        T = W.table(ls)
        g = np.array([R.uniform(-1, 1) for _ in W.W])
        g0 = g.copy()
        S.update(tensorize=R.choice((True, False)))
        fg = W.at(W.fac(W.dirs))
        kw = {'index_set': k} if k != 'triangle' or R.randint(0, 1) else {}
        begin('%s.transform(%s, %d, %s)' % (W.show(), g.tolist(), d, kw), dim > 1)
        r = q.transform(g, d, **kw)
        W.quadmeta(r, k, d, 'the transform', len(ls))
        same(r.coeffs, T.dot(W.W * g / fg), np.abs(T).dot(np.abs(W.W * g / fg)) + 1e-300, 'transform', 1e-8)
        begin('%s.integrate(%s)' % (W.show(), g.tolist()), dim > 1)
        same(np.array(q.integrate(g)), np.array((W.W * g).sum()), np.abs(W.W * g).sum() + 1e-300, 'integral', 1e-8)
        rho = density()
        begin('%s.integrate(%s, flat=True)' % (W.show(), g.tolist()), dim > 1)
        same(np.array(q.integrate(g, flat=True)), np.array((W.W * g / rho).sum()), np.abs(W.W * g / rho).sum() + 1e-300, 'flat integral', 1e-8)
        for n, fl in ((1, False), (2, False), (2, True)):
            begin('%s.norm(%s, %d, flat=%s)' % (W.show(), g.tolist(), n, fl))
            v = (W.W * np.abs(g) ** n / (rho if fl else 1)).sum() ** (1 / n)
            same(np.array(q.norm(g, n=n, flat=fl)), np.array(v), abs(v) + 1e-300, 'norm', 1e-8)
        c = rvec(len(ls))
        begin('%s.series(%s, index_set=%r)' % (W.show(), c.tolist(), k))
        r = q.series(c.copy(), index_set=k)
        W.quadmeta(r, k, d, 'series', len(ls))
        if not np.array_equal(r.coeffs, c):
            fail('series changes the coefficients')
        s, v, sc = sers(ls, k, R.randint(0, 1), R.randint(0, 1))
        begin('%s.eval(Series(%s, %s, mean %s, covariance %s, factor %s))' % (W.show(), s.coeffs.tolist(), k, s.position.mean.tolist(), s.position.cov.tolist(), s.factor.sym), dim > 1)
        same(q.eval(s), v, sc, 'eval', 1e-8)
        begin('%s.integrate(the same series)' % W.show())
        same(np.array(q.integrate(s)), np.array((W.W * v).sum()), np.abs(W.W).sum() * sc, 'integral of a series', 1e-8)
        if k == 'triangle':
            begin('%s.eval(%s)' % (W.show(), c.tolist()), dim > 1)
            same(q.eval(c), c.dot(T) * fg, np.abs(c).dot(np.abs(T)).max() * np.abs(fg).max() + 1e-300, 'eval of coefficients', 1e-8)
        begin('%s.mapped_nodes()' % W.show(), dim > 1)
        same(q.mapped_nodes(), W.x, 1 + np.abs(W.x), 'mapped_nodes', 1e-9)
        if not np.array_equal(g, g0):
            fail('the argument is modified')
        W.same_quad()
    # functions, with and without tensorisation
    for t in range(n_cases(16, 80)):
        dim, k, d, ls = qpar(W, 30)
        q = W.quad(dim, R.randint(2, 4), fourier=d % 2 == 0)
        T = W.table(ls)
        u = W.fun()
        f = W.at(u)
        arg = R.choice((u, str(u), W.F(u, dirs=W.dirs)))
        begin('%s.discretize(%r)' % (W.show(), str(u)), dim > 1)
        same(q.discretize(arg), f, 1 + np.abs(f), 'discretize')
        fg, rho = W.at(W.fac(W.dirs)), density()
        for tens in (True, False):
            how = {'tensorize': tens}
            if R.randint(0, 1):
                S.update(how)
                how = {}
            begin('%s.transform(%r, %d, index_set=%r, tensorize=%s)' % (W.show(), str(u), d, k, tens), dim > 1)
            r = q.transform(arg, d, index_set=k, **how)
            W.quadmeta(r, k, d, 'the transform', len(ls))
            same(r.coeffs, T.dot(W.W * f / fg), np.abs(T).max() * np.abs(W.W * f / fg).sum() * 10 + 1, 'transform', 1e-8)
            for fl in (False, True):
                begin('%s.integrate(%r, flat=%s, tensorize=%s)' % (W.show(), str(u), fl, tens), dim > 1)
                v = W.W * f / (rho if fl else 1)
                same(np.array(q.integrate(arg, flat=fl, **how)), np.array(v.sum()), np.abs(v).sum() * 10 + 1 + (np.abs(W.W / rho).max() if fl else 0), 'integral', 1e-8)
        W.same_quad()
    # covariances that are not diagonal
    for t in range(n_cases(25, 150)):
        dim = 2
        d = R.randint(1, 4)
        k = R.choice(('triangle', 'cube', 'cross'))
        ls = olist(k, dim, d)
        dirs = sorted(R.sample(range(5), dim))
        W.dirs = dirs
        a = np.array([[R.uniform(-1, 1) for _ in range(2)] for _ in range(2)])
        cov = a.dot(a.T) + np.diag([.3, .5])
        mu, mu2 = [np.array([R.uniform(-1, 1) for _ in range(2)]) for _ in range(2)]
        nodes = [np.array([R.uniform(-2, 2) for _ in range(3)]) for _ in range(2)]
        w = [np.array([R.uniform(.1, 1) for _ in range(3)]) for _ in range(2)]
        P = lambda m, c: W.P(dirs=list(dirs), mean=m.copy(), cov=c.copy(), types=['hermite'] * 2)
        q = W.Q(nodes, w, position=P(mu, cov))
        F = np.asarray(q.position.factor)
        begin('Position(cov=%s).factor' % cov.tolist())
        same(F.dot(F.T), cov, 1 + np.abs(cov), 'factor times its transpose')
        ref = np.array(list(itertools.product(*nodes)))
        x = ref.dot(F.T) + mu
        u = W.X[dirs[0]] + 3 * W.X[dirs[1]] ** 2
        begin('Quad(dirs=%s, mean=%s, cov=%s).discretize(%r)' % (dirs, mu.tolist(), cov.tolist(), str(u)))
        same(q.discretize(u), x[:, 0] + 3 * x[:, 1] ** 2, 1 + np.abs(x).max() ** 2, 'discretize')
        c = rvec(len(ls))
        for c2, must in ((cov, True), (np.diag(np.diag(cov)), False), (np.eye(2), False)):
            s = W.S(c.copy(), P(mu2, c2), index_set=k)
            z = np.linalg.inv(np.asarray(s.position.factor)).dot((x - mu2).T).T
            v = np.zeros(len(x))
            sc = 1e-300
            for ci, m in zip(c, ls):
                v = v + ci * herm(m[0], z[:, 0]) * herm(m[1], z[:, 1])
                sc += np.abs(ci * herm(m[0], z[:, 0]) * herm(m[1], z[:, 1])).max()
            begin('Quad(nodes %s, dirs=%s, mean=%s, cov=%s).eval(Series(%s, %s, mean %s, covariance %s))' % ([n.tolist() for n in nodes], dirs, mu.tolist(), cov.tolist(), c.tolist(), k, mu2.tolist(), c2.tolist()))
            try:
                r = q.eval(s)
            except ValueError:
                if must:
                    fail('refuses a series with the covariance of the quadrature')
                continue
            same(r, v, sc, 'eval', 1e-8)


def g_function():
    W = World()
    sy, F = W.sym, W.F
    X = [sy.Symbol('x%d' % d, real=True) for d in range(5)]

    def at(e, p):
        return float(sy.N(sy.sympify(e).subs(dict(zip(X, p)))))

    def close(a, b, what):
        for _ in range(2):
            p = [R.uniform(.4, 1.6) for _ in X]
            u, v = at(a, p), at(b, p)
            if not abs(u - v) <= 1e-8 * (1 + abs(u) + abs(v)):
                fail('%s is %s, not %s (%r instead of %r at %s)' % (what, a, b, u, v, p))

    def vs(e):
        return {X.index(s) for s in sy.sympify(e).free_symbols}

    def atom(ds):
        t = R.choice(ds)
        if len(ds) > 1 and R.randint(0, 2) == 0:
            g = R.sample(ds, R.choice((2, 2, min(3, len(ds)))))
            s = sum(X[d] for d in g)
            return R.choice([sy.cos(s), sy.sin(sy.prod([X[d] for d in g])), 1 / (1 + sum(X[d] ** 2 for d in g))])
        x = X[t]
        return R.choice([x, x ** 2, x ** 3, sy.cos(x), sy.exp(-x ** 2 / 4), sy.exp(x), 1 / x, sy.sqrt(x ** 2 + 1)])

    def term(ds, hi=5):
        e = sy.Rational(R.randint(1, 5), R.randint(1, 3)) * R.choice([1, 1, -1])
        for _ in range(R.randint(0, hi)):
            e *= atom(ds)
        return e

    def groups(e, ds):
        """the finest groups of directions of a product"""
        comp = [{d} for d in ds]
        for a in (e.args if e.is_Mul else [e]):
            s = vs(a)
            hit = [c for c in comp if c & s]
            if hit:
                comp = [c for c in comp if not c & s] + [set().union(*hit)]
        return {frozenset(c) for c in comp}

    for t in range(n_cases(150, 1200)):
        ds = sorted(R.sample(range(5), R.randint(1, 5)))
        e = sum(term(ds) for _ in range(R.choice((1, 1, 2, 3))))
        if R.randint(0, 3) == 0:
            e = e * (term(ds, 1) + term(ds, 1))
        begin('Function(%s, dirs=%s)' % (e, ds), len(ds) > 1)
        f = F(e, dirs=list(ds))
        if f.dirs != ds:
            fail('has directions %s' % f.dirs)
        close(f.sym, e, 'the function')
        s = str(e)
        if R.randint(0, 1):
            s = re.sub(r'\bx([0-4])\b', lambda m: 'xyzwv'[int(m.group(1))], s)
        begin('Function(%r, dirs=%s)' % (s, ds), len(ds) > 1)
        close(F(s, dirs=list(ds)).sym, e, 'the function')
        f0 = (f.sym, list(f.dirs))
        terms = list(f.sym.args) if f.sym.is_Add else [f.sym]
        begin('Function(%s, dirs=%s).split(legacy=False)' % (e, ds), len(ds) > 1)
        r = f.split(legacy=False)
        if len(r) != len(terms):
            fail('%d terms, not %d' % (len(r), len(terms)))
        for g, u in zip(r, terms):
            if frozenset() not in g or set(g) - {frozenset()} != groups(u, ds):
                fail('the groups of %s are %s' % (u, sorted(map(sorted, g))))
            for k, v in g.items():
                if v.dirs != sorted(k) or not vs(v.sym) <= k:
                    fail('the part in the directions %s is %s on %s' % (sorted(k), v.sym, v.dirs))
            close(sy.prod([v.sym for v in g.values()]), u, 'the product of the parts')
        begin('Function(%s, dirs=%s).split()' % (e, ds), len(ds) > 1)
        r = f.split()
        if len(r) != len(terms):
            fail('%d terms, not %d' % (len(r), len(terms)))
        for g, u in zip(r, terms):
            one = len(groups(u, ds)) == len(ds)
            if [list(v.dirs) for v in g[:-1]] != ([[d] for d in ds] if one else [ds]):
                fail('%s is split in functions on %s' % (u, [v.dirs for v in g[:-1]]))
            if vs(g[-1]):
                fail('the multiplier of %s is %s' % (u, g[-1]))
            close(sy.prod([v.sym for v in g[:-1]]) * g[-1], u, 'the product of the parts')
        if (f.sym, f.dirs) != f0:
            fail('the function is modified')
        # projection of a product
        u = terms[0]
        gs = groups(u, ds)
        p = F(u, dirs=list(ds))
        cells = {}
        for g in gs:
            cells.setdefault(R.randint(0, 2), set()).update(g)
        tot = sy.Integer(1)
        for c in cells.values():
            c = sorted(c)
            begin('Function(%s, dirs=%s).project(%s)' % (u, ds, c), len(ds) > 1)
            q = p.project(c[0] if len(c) == 1 and R.randint(0, 1) else list(c))
            if q.dirs != c or not vs(q.sym) <= set(c):
                fail('the projection is %s on %s' % (q.sym, q.dirs))
            tot *= q.sym
        begin('Function(%s, dirs=%s).project on %s' % (u, ds, [sorted(c) for c in cells.values()]), len(ds) > 1)
        close(tot, u, 'the product of the projections')
        c = sorted(R.sample(ds, R.randint(1, len(ds))))
        if any(g & set(c) and not g <= set(c) for g in gs):
            begin('Function(%s, dirs=%s).project(%s)' % (u, ds, c), True)
            refuses(lambda: p.project(list(c)), 'directions of a function that does not split')
        # tensor product
        ps = [(sorted(c), term(sorted(c), 2)) for c in cells.values()]
        R.shuffle(ps)
        begin('Function.tensorize(%s)' % ps, len(ps) > 1)
        q = F.tensorize([F(b, dirs=list(a)) for a, b in ps])
        if q.dirs != ds:
            fail('has directions %s' % q.dirs)
        close(q.sym, sy.prod([b for _, b in ps]), 'the tensor product')
        refuses(lambda: F.tensorize([F(b, dirs=list(a)) for a, b in ps + ps[:1]]), 'functions with a common direction')
        # arithmetic
        h = term(ds, 2)
        o = F(h, dirs=list(ds)) if R.randint(0, 1) else h
        begin('Function(%s, dirs=%s) +, *, / %s' % (e, ds, h), len(ds) > 1)
        for q, x, w in ((f + o, e + h, 'sum'), (f * o, e * h, 'product'), (f / o, e / h, 'quotient'), (o + f if not isinstance(o, sy.Basic) else f + o, e + h, 'sum')):
            if q.dirs != ds:
                fail('the %s has directions %s' % (w, q.dirs))
            close(q.sym, x, 'the ' + w)
        if len(ds) > 1:
            for op in (lambda: f + F(1, dirs=ds[1:]), lambda: f * F(1, dirs=ds[1:]), lambda: f / F(1, dirs=ds[1:])):
                refuses(op, 'an operand in other directions')
        if (f.sym, f.dirs) != f0:
            fail('the function is modified')
        begin('Function(%s, dirs=%s).as_xyz()' % (e, ds))
        close(f.as_xyz().subs(dict(zip(F.xyz, X)), simultaneous=True), e, 'the function')
        # C code: coordinates are numbered by their place among the directions
        begin('Function(%s, dirs=%s).ccode()' % (e, ds), len(ds) > 1)
        cc = f.ccode()
        pt = [R.uniform(.4, 1.6) for _ in X]
        v = eval(re.sub(r'([0-9])L\b', r'\1', cc).replace('M_PI', 'pi'), dict(vars(math), v=[pt[d] for d in ds], fabs=abs))
        if not abs(v - at(e, pt)) <= 1e-8 * (1 + abs(v)):
            fail('ccode is %s' % cc)
    # a function without directions given
    for e, n in ((1, 0), ('x', 1), ('y', 2), ('x1*x3', 4), (X[4], 5)):
        begin('Function(%s)' % e)
        if F(e).dirs != list(range(n)):
            fail('has directions %s' % F(e).dirs)
    # series as functions
    for t in range(n_cases(12, 60)):
        W.data()
        dim = R.choice((1, 2, 2, 3))
        k = R.choice(SSETS)
        d = R.randint(max(1, dmin(k)), (6, 4, 2)[dim - 1])
        ls = olist(k, dim, d)
        dirs = sorted(R.sample(range(5), dim))
        for i in dirs:
            W.d[i] = W.d[i][:2] + ('hermite',)
        c = rvec(len(ls))
        begin('Series(%s, %s, directions %s, (mean, variance) %s).to_function()' % (c.tolist(), k, dirs, [W.d[i][:2] for i in dirs]), dim > 1)
        q = W.S(c.copy(), W.pos(dirs), index_set=k).to_function()
        if q.dirs != dirs:
            fail('has directions %s' % q.dirs)
        for _ in range(2):
            p = [R.uniform(-1, 1) for _ in X]
            z = [(p[i] - W.d[i][0]) / math.sqrt(W.d[i][1]) for i in dirs]
            ts = [ci * np.prod([float(herm(m, np.array([y]))[0]) for m, y in zip(mi, z)]) for ci, mi in zip(c, ls)]
            if not abs(at(q.sym, p) - sum(ts)) <= 1e-6 * (1 + sum(map(abs, ts))):
                fail('the value at %s is %r, not %r' % (p, at(q.sym, p), sum(ts)))


def g_operator():
    W = World()
    import hermipy.operator
    sy, F, Op = W.sym, W.F, hermipy.operator.Operator
    X = [sy.Symbol('x%d' % d, real=True) for d in range(5)]
    XYZ = F.xyz

    def at(e, p):
        return float(sy.N(sy.sympify(e).subs(dict(zip(X, p)))))

    def close(a, b, what):
        for _ in range(2):
            p = [R.uniform(.4, 1.6) for _ in X]
            u, v = at(a, p), at(b, p)
            if not abs(u - v) <= 1e-7 * (1 + abs(u) + abs(v)):
                fail('%s is %s, not %s (%r instead of %r at %s)' % (what, a, b, u, v, p))

    def coef(ds):
        e = sy.Rational(R.randint(1, 5), R.randint(1, 3)) * R.choice([1, 1, -1])
        for _ in range(R.randint(0, 2)):
            x = X[R.choice(ds)]
            e *= R.choice([x, x ** 2, sy.exp(x / 2), sy.cos(x), 1 / (1 + x ** 2)])
        return e

    def order(n, top):
        m = [0] * n
        for _ in range(R.choice((0, 1, 1, 2, 2, 3, top))):
            m[R.randint(0, n - 1)] += 1
        return tuple(m)

    def der(u, ds, m):
        for d, k in zip(ds, m):
            for _ in range(k):
                u = sy.diff(u, X[d])
        return u

    def act(terms, ds, u):
        return sum(c * der(u, ds, m) for c, m in terms)

    def testfun(ds):
        return sy.exp(sum(sy.Rational(R.randint(1, 4), 5) * X[d] for d in ds)) * (1 + sum(X[d] ** R.randint(1, 3) for d in ds)) + sy.sin(sy.prod([X[d] for d in ds]))

    def write(terms, ds, name):
        u = sy.Function(name)(*[X[d] for d in ds])
        return sum(c * der(u, ds, m) for c, m in terms)

    def app(A, ds, u):
        if not isinstance(A, Op):
            fail('is a %s' % type(A).__name__)
        if A.dirs != ds:
            fail('has directions %s' % A.dirs)
        return A.sym.subs(Op.f(*[X[d] for d in ds]), u).doit()

    for t in range(n_cases(12, 80)):
        ds = sorted(R.sample(range(5), R.choice((1, 1, 2, 2, 3))))
        mk = lambda top: [(coef(ds), order(len(ds), top)) for _ in range(R.choice((1, 2, 3, 4)))]
        ta, tb = mk(5 if len(ds) < 3 else 4), mk(2)
        if not ta or write(ta, ds, 'f') == 0 or write(tb, ds, 'f') == 0:
            continue
        ea, eb = write(ta, ds, R.choice(('f', 'u'))), write(tb, ds, 'f')
        begin('Operator(%s)' % ea, len(ds) > 1)
        u = testfun(ds)
        if R.randint(0, 2) == 0:
            A = Op(ea.subs(list(zip(X, XYZ))))
        else:
            A = Op(ea)
        B = Op(eb)
        a0 = (A.sym, list(A.dirs))
        close(app(A, ds, u), act(ta, ds, u), 'the operator applied to %s' % u)
        begin('Operator(%s)(%s)' % (ea, u), len(ds) > 1)
        for arg in (F(u, dirs=list(ds)), u):
            r = A(arg)
            if not isinstance(r, F) or r.dirs != ds:
                fail('is %r' % (r,))
            close(r.sym, act(ta, ds, u), 'the value')
        begin('Operator(%s)(Operator(%s))' % (ea, eb), len(ds) > 1)
        if sum(max(m for _, m in x)[0] for x in (ta, tb)) < 9:
            close(app(A(B), ds, u), act(ta, ds, act(tb, ds, u)), 'the composition applied to %s' % u)
        h = coef(ds)
        begin('Operator(%s) +, -, * with Operator(%s), %s' % (ea, eb, h), len(ds) > 1)
        close(app(A + B, ds, u), act(ta, ds, u) + act(tb, ds, u), 'the sum applied to %s' % u)
        close(app(A - B, ds, u), act(ta, ds, u) - act(tb, ds, u), 'the difference applied to %s' % u)
        close(app(-A, ds, u), -act(ta, ds, u), 'the opposite applied to %s' % u)
        for o in (h, F(h, dirs=list(ds))):
            close(app(A * o, ds, u), h * act(ta, ds, u), 'the product by a function applied to %s' % u)
        close(app(3 * A, ds, u), 3 * act(ta, ds, u), 'the triple applied to %s' % u)
        w = sy.exp(-sum(X[d] ** 2 for d in ds) / 4) * R.choice([1, 1 + X[ds[0]] ** 2])
        begin('Operator(%s).map(%s)' % (ea, w), len(ds) > 1)
        M = A.map(F(w, dirs=list(ds)) if R.randint(0, 1) else w)
        close(app(M, ds, u), act(ta, ds, u * w) / w, 'the conjugated operator applied to %s' % u)
        begin('Operator(%s).split()' % ea, len(ds) > 1)
        for L, terms, what in ((A, ta, ea), (A - B, ta + [(-c, m) for c, m in tb], '%s - (%s)' % (ea, eb)), (M, None, M.sym)):
            begin('Operator(%s).split()' % what, len(ds) > 1)
            if L.sym == 0:
                continue
            r = L.split()
            for m, c in r.items():
                if not isinstance(m, tuple) or len(m) != len(ds) or not isinstance(c, F) or c.dirs != ds or c.sym == 0:
                    fail('maps %r to %r' % (m, c))
            close(act([(c.sym, m) for m, c in r.items()], ds, u), act(terms, ds, u) if terms else act(ta, ds, u * w) / w, 'the sum of the terms applied to %s' % u)
            if terms:
                for m in set(r) | {m for _, m in terms}:
                    close(r[m].sym if m in r else 0, sum(c for c, k in terms if k == m), 'the coefficient of the derivative %s' % (m,))
        # derivatives that are written down, not evaluated
        d = R.choice(ds)
        e = sy.Derivative(h * Op.f(*[X[i] for i in ds]), X[d])
        begin('Operator(%s).split()' % e, len(ds) > 1)
        r = Op(e).split()
        close(act([(c.sym, m) for m, c in r.items()], ds, u), sy.diff(h * u, X[d]), 'the sum of the terms applied to %s' % u)
        m = [0] * len(ds)
        for _ in range(6):
            m[R.randint(0, len(m) - 1)] += 1
        e = write(tb + [(sy.Integer(1), m)], ds, 'f')
        begin('Operator(%s).split()' % e, len(ds) > 1)
        refuses(lambda: Op(e).split(), 'an operator of order six')
        begin('Operator(%s).as_xyz()' % ea, len(ds) > 1)
        e = A.as_xyz()
        if any(x in e.free_symbols for x in X):
            fail('is %s' % e)
        close(Op(e).sym.subs(Op.f(*[X[d] for d in ds]), u).doit(), act(ta, ds, u), 'the operator applied to %s' % u)
        for o in ([ds[1:]] if len(ds) > 1 else []) + [[(ds[0] + 1) % 5] if len(ds) == 1 else sorted(ds[1:] + [R.choice([d for d in range(5) if d not in ds])])]:
            C = Op(write([(sy.Integer(1), (1,))], o, 'f'))
            begin('Operator(%s) and Operator(%s)' % (ea, C.sym), True)
            for op in (lambda: A + C, lambda: A - C, lambda: A * F(1, dirs=o), lambda: A.map(F(1, dirs=o))):
                refuses(op, 'an operand in other directions')
        if (A.sym, A.dirs) != a0:
            fail('the operator is modified')
