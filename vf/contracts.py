"""Sidecar contracts: parsing, lookup, and assembly of Verus units."""
import glob, os, re
from clangast import inner, Index, dump, REPO, ExtractError
import cpp2rs
from cpp2rs import Translator, Unsupported, norm, node_ty, ITER, rust_ty

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def abbr(t):
    if isinstance(t, tuple):
        if t[0] == 'vec':
            return 'v' + abbr(t[1])
        if t[0] == 'iter':
            return 'm'
        if t[0] == 'box':
            return 'm'
        if t[0] == 'ptr':
            return 'p' + abbr(t[1])
        return 'x'
    return {'u32': 'u', 'i32': 'i', 'i64': 'l', 'usize': 'z', 'f64': 'r', 'bool': 'b', 'str': 's', 'spmat': 'S', 'bmat': 'B', 'cmat': 'C',
            'ndarray': 'N', 'closure': 'c', 'grid': 'm', 'miter': 'm', 'viter': 'm', 'sfunc': 'f', 'fnptr': 'f'}.get(t, 'x')


def split_key(k):
    """name<targs>(params) -> (name, [targs] or None, [params] or None)"""
    m = re.match(r'^([\w:~\[\]=+*-]+?)(?:<(.*)>)?(?:\((.*)\))?$', k.strip())
    n, t, p = m.group(1), m.group(2), m.group(3)
    return n, (None if t is None else [x.strip() for x in t.split(',')]), \
        (None if p is None else ([x.strip() for x in p.split(',')] if p.strip() else []))


class Sidecar:
    def __init__(self, key):
        self.key = key
        self.name, self.targs, self.pabbr = split_key(key)
        self.params, self.ret, self.const = None, 'r', False
        self.requires, self.ensures, self.attrs = [], [], []
        self.loops, self.hints, self.locals = {}, {}, []
        self.extra_params = []
        self.like = None
        self.trusted = False
        self.nloops = None
        self.maythrow = []
        self.types = None

    def subst(self, mp):
        s = Sidecar(self.key)
        s.__dict__.update(self.__dict__)

        def f(x):
            for a, b in mp.items():
                x = x.replace(a, b)
            return x
        s.requires = [f(x) for x in self.requires]
        s.maythrow = [f(x) for x in self.maythrow]
        s.ensures = [f(x) for x in self.ensures]
        s.loops = {k: [f(x) for x in v] for k, v in self.loops.items()}
        s.hints = {k: [f(x) for x in v] for k, v in self.hints.items()}
        s.extra_params = [f(x) for x in self.extra_params]
        return s


def parse_sidecars(path):
    out, cur, sec = [], None, None
    for ln, line in enumerate(open(path), 1):
        raw = line.rstrip('\n')
        st = raw.strip()
        if st.startswith('//!') or (not st and sec is None):
            continue
        if st.startswith('@'):
            w = st.split(None, 1)
            d, rest = w[0][1:], (w[1] if len(w) > 1 else '')
            if d == 'fn':
                cur = Sidecar(rest)
                cur.where = '%s:%d' % (os.path.basename(path), ln)
                out.append(cur)
                sec = None
            elif d == 'params':
                cur.params = [x.strip() for x in rest.split(',')] if rest.strip() else []
            elif d == 'ret':
                cur.ret = rest
            elif d == 'types':
                a, b = rest.split('->')
                cur.types = ([x.strip() for x in a.split(',')] if a.strip() else [], b.strip())
            elif d == 'const':
                cur.const = True
            elif d == 'trusted':
                cur.trusted = True
            elif d == 'like':
                cur.like = rest
            elif d == 'attr':
                cur.attrs.append(rest)
            elif d == 'extra':
                cur.extra_params.append(rest)
            elif d == 'locals':
                cur.locals = [x.strip() for x in rest.split(',')]
            elif d == 'requires':
                sec = cur.requires
            elif d == 'ensures':
                sec = cur.ensures
            elif d == 'maythrow':
                sec = cur.maythrow
            elif d == 'loop':
                sec = cur.loops.setdefault(int(rest), [])
            elif d == 'at':
                sec = cur.hints.setdefault(rest, [])
            else:
                raise Exception('%s:%d: unknown directive %s' % (path, ln, d))
            continue
        if sec is None:
            if st:
                raise Exception('%s:%d: text outside a section' % (path, ln))
            continue
        if st:
            sec.append(raw)
    return out


class Contracts:
    def __init__(self, files=None):
        self.all = []
        for f in files or sorted(glob.glob(os.path.join(ROOT, 'contracts', '*.vc'))):
            self.all += parse_sidecars(f)
        for s in self.all:
            if s.like:
                w = s.like.split()
                base = self.get_exact(w[0])
                if base is None:
                    raise Exception('@like %s: not found' % w[0])
                mp = dict(x.split('=', 1) for x in w[1:])
                b = base.subst({'$' + k: v for k, v in mp.items()})
                s.requires = b.requires + s.requires
                s.ensures = b.ensures + s.ensures
                s.params = s.params or b.params
                s.maythrow = s.maythrow or b.maythrow
                if s.ret == 'r':
                    s.ret = b.ret
                s.const = s.const or b.const
                s.loops = s.loops or b.loops
                s.hints = {**b.hints, **s.hints}
                s.locals = s.locals or b.locals
                s.extra_params = b.extra_params + s.extra_params

    def get_exact(self, key):
        for s in self.all:
            if s.key == key:
                return s
        return None

    def find(self, name, targs, pabbr):
        for s in self.all:
            if s.name != name:
                continue
            if (s.targs or []) != (targs or []) and not (s.targs is None and not targs):
                continue
            if s.pabbr is not None and s.pabbr != pabbr:
                continue
            return s
        return None


def short_targ(t):
    n = norm(t)
    if isinstance(n, tuple) and n[0] == 'iter':
        return n[1]
    return abbr(n)


def fn_key(f, generic=None):
    name = f.qname
    cls = f.cls
    if generic and cls == generic and f.node.get('storageClass') == 'static':
        name = 'K_iterator::' + f.name
    targs = [short_targ(t) for t in f.targs]
    targs = ['K' if (generic and t == generic) else t for t in targs]
    pab = [abbr(node_ty(p)) for p in f.params]
    return name, targs, pab


def mangle(name, targs, pab, cls):
    s = name.replace('::', '__').replace('operator[]', 'at').replace('operator+', 'op_add').replace('operator*', 'op_mul').replace('operator', 'op_')
    s = re.sub(r'[^\w]', '_', s)
    if cls:
        return s
    if targs:
        s += '__' + '_'.join(targs)
    return s + '__' + '_'.join(pab)


class Env:
    """Everything a Translator needs to know about the rest of the program."""

    def __init__(self, idx, contracts):
        self.idx, self.c = idx, contracts
        self.lits, self.needed, self.inlined = {}, {}, set()
        self.check_no_overrides()

    def check_no_overrides(self):
        for f in self.idx.fns:
            if f.cls in ITER and f.node['kind'] == 'CXXMethodDecl' and f.node.get('storageClass') != 'static' and not f.node.get('isImplicit') \
                    and not f.name.startswith('~') and not f.name.startswith('operator='):
                # out-of-line definitions of statics carry no storage class
                if not f.name.startswith('s_'):
                    raise ExtractError('%s overrides a base iterator method' % f.qname)

    def resolve(self, id_):
        return self.idx.resolve(id_)

    def lit(self, s):
        if s not in self.lits:
            self.lits[s] = 'lit_%d' % len(self.lits) if s not in ('',) else 'lit_empty'
        return self.lits[s]

    def lit_text(self):
        out = []
        for s, n in self.lits.items():
            seq = 'Seq::<u8>::empty()' if s == '' else 'seq![%s]' % ', '.join('%du8' % b for b in s.encode())
            out.append('#[verifier::external_body]\npub fn %s() -> (r: Str) ensures r@ == %s { unimplemented!() }' % (n, seq))
        return '\n'.join(out)

    def callee(self, f, tr):
        name, targs, pab = fn_key(f, tr.generic)
        cls = f.cls
        sc = self.c.find(name, targs, pab)
        mp = {}
        if sc is None and not tr.generic:
            # instance of a generic contract
            gt = [('K' if t in ITER else t) for t in targs]
            kinds = [t for t in targs if t in ITER]
            if kinds:
                sc = self.c.find(name, gt, pab)
                if sc:
                    mp = {'$K': 'Kind::' + ITER[kinds[0]]}
        elif sc is not None and tr.generic:
            mp = {'$K': 'ABS()'}
        if sc is None and cls in ITER:
            gname = 'K_iterator::' + f.name
            sc = self.c.find(gname, targs, pab)
            if sc:
                mp = {'$K': 'Kind::' + ITER[cls]}
        if sc is None:
            self.inlined.add(f.qname)
            return ('inline', None, '')
        rn = mangle(name, targs, pab, cls)
        self.needed[rn] = (f, sc.subst(mp) if mp else sc, tr.generic)
        return ('call', rn, 'const' if sc.const else '')

    def need(self, what):
        """constructors"""
        cls = what.split('::')[0]
        ctor = 'K_iterator::K_iterator' if cls == 'K_iterator' else what
        sc = self.c.find(ctor, [], None)
        mp = {}
        if sc is None and cls in ITER:
            sc = self.c.find('K_iterator::K_iterator', [], None)
            mp = {'$K': 'Kind::' + ITER[cls]}
        if cls == 'K_iterator':
            mp = {'$K': 'ABS()'}
        if sc is None:
            raise Unsupported('no contract for constructor of ' + cls)
        rn = cls + '__new'
        f = None
        for x in self.idx.fns:
            if x.node['kind'] == 'CXXConstructorDecl' and x.cls == (what.split('::')[1]) and len(x.params) and not x.node.get('isImplicit'):
                f = self.idx.resolve(x.node['id'])
                break
        if f is None:
            raise Unsupported('constructor of ' + cls)
        self.needed[rn] = (f, sc.subst(mp) if mp else sc, None)

    MAT_T = {('vec', ('vec', 'f64')): 'mat', 'spmat': 'sp', 'bmat': 'bm', ('vec', 'f64'): 'vec'}

    def mat_expr(self, tr, n):
        """type and text of a matrix expression (ublas expression templates included: what the expression evaluates to)"""
        s = tr.strip(n)
        if s['kind'] == 'CXXOperatorCallExpr' and len(inner(s)) == 3 and tr.opname(s) in ('operator+', 'operator*'):
            a = inner(s)[1:]
            t0, e0 = self.mat_expr(tr, a[0])
            if t0 in self.MAT_T and tr.opname(s) == 'operator*' and node_ty(tr.strip(a[1])) == 'f64':
                return t0, '%s_scale(&%s, %s)' % (self.MAT_T[t0], e0, tr.ex(a[1]))
            if t0 in self.MAT_T and tr.opname(s) == 'operator+':
                t1, e1 = self.mat_expr(tr, a[1])
                if t1 == t0:
                    return t0, '%s_add(&%s, &%s)' % (self.MAT_T[t0], e0, e1)
            raise Unsupported('operator %s on %r' % (tr.opname(s), t0))
        return node_ty(s), tr.ref_text(s)

    def obj_op(self, tr, name, args, n):
        return self.mat_expr(tr, n)[1]


class Unit:
    """One Verus file: trusted prelude + lemma files + the functions to prove + contract stubs."""

    def __init__(self, name, tu, fns, specs, generic=None, rlimit=None, extra='', filt=('hermite::',)):
        self.filt = filt
        self.name, self.tu, self.fns, self.specs, self.generic = name, tu, fns, specs, generic
        self.rlimit = rlimit
        self.extra = extra


class PyUnit:
    """One Verus file for functions of the Python package: fns = [dotted paths within the module]"""
    filt = ()

    def __init__(self, name, tu, fns, specs, rlimit=None, uses=()):
        self.name, self.tu, self.fns, self.specs, self.rlimit, self.uses = name, tu, fns, specs, rlimit, uses


def build_pyunit(u, contracts):
    import ast
    import py2rs
    src = open(os.path.join(REPO, u.tu), encoding='utf-8').read()
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Unsupported('Python: %s' % e)
    mod = os.path.basename(u.tu)[:-3]
    parts, mapping, env, scs, stubs, own = [], [], {}, {}, [], mod

    def declare(mod, path):
        plain = path.split('@')[0]
        key = 'py::%s::%s' % (mod, path.replace('.', '::').replace('@', '__'))
        sc = contracts.find(key, None, None)
        if sc is None or sc.types is None:
            raise Unsupported('no contract for ' + key)
        rn = '%s__%s' % (mod, path.replace('.', '__').replace('@', '__'))
        w = plain.split('.')
        e = (rn, sc.types[0], sc.types[1])
        env.setdefault(w[-1], e)
        if len(w) > 1 and w[-2] in py2rs.CLASSES:
            env[(py2rs.CLASSES[w[-2]], w[-1]) + tuple(sc.types[0])] = e
            if mod == own and any(t == 'rep' or t.startswith('const:') for t in sc.types[0]):
                f = py2rs.find(tree, plain)
                names = [x.arg for x in f.args.args]
                env[('sig', py2rs.CLASSES[w[-2]], w[-1])] = (names, dict(zip(names[len(names) - len(f.args.defaults):], f.args.defaults)))
        if len(w) == 1 and mod != own:
            env[mod + '.' + w[0]] = e
        return sc, rn
    for path in u.fns:
        scs[path] = declare(mod, path)
    for m, path in u.uses:
        sc, rn = declare(m, path)
        stubs.append(py2rs.stub(sc, rn))
    for path in u.fns:
        sc, rn = scs[path]
        tr = py2rs.Tr(py2rs.find(tree, path.split('@')[0]), sc, env)
        parts.append('// ---- extracted from %s: %s\n%s' % (u.tu, path, tr.text(rn, *sc.types)))
        mapping.append(('%s:%s' % (u.tu, path), rn, 1))
    pre = open(os.path.join(ROOT, 'spec', 'py.rs')).read()
    specs = [spec_text(s) for s in u.specs]
    text = pre + '\nverus!{\n' + '\n'.join(specs) + '\n/*UNIT-FUNCTIONS*/\n' + '\n'.join(stubs) + '\n\n'.join(parts) + '\n}\nfn main() {}\n'
    return text, {'proved': mapping, 'stubs': ['%s.%s' % x for x in u.uses], 'inlined': [], 'trusted_stubs': []}


_cache = {}


def load_index(tu, filt=('hermite::',)):
    path = tu if os.path.isabs(tu) else os.path.join(REPO, tu)
    key = (path, tuple(filt))
    if key not in _cache:
        if not os.path.exists(path):
            raise ExtractError('missing ' + path)
        _cache[key] = Index([d for f in filt for d in dump(path, f)])
    return _cache[key]


def locals_of(fn):
    """names of locals in declaration order"""
    out = []

    def w(n):
        if n.get('kind') == 'LambdaExpr':
            return
        if n.get('kind') == 'VarDecl' and not n.get('name', '').startswith('__'):
            out.append(n['name'])
        for c in inner(n):
            if isinstance(c, dict) and c:
                w(c)
    w(fn.body)
    return out


def translate(fn, env, sc, generic, rustname):
    tr = Translator(fn, env, sc, generic)
    if sc.locals:
        have = [cpp2rs.rname(x) for x in locals_of(fn)]
        want = sc.locals
        missing = [w for w in want if w not in have]
        if missing:
            uniq = []
            for h in have:
                if h not in uniq:
                    uniq.append(h)
            if len(uniq) == len(want):
                tr.rename = dict(zip(uniq, want))
    txt = tr.text(rustname)
    bad = [a for a in list(sc.hints) + ['loop%d' % k for k in sc.loops] if a not in tr.anchors]
    if bad:
        raise Unsupported('structure of %s changed: no anchor %s' % (fn.qname, ', '.join(bad)))
    if sc.loops and tr.nloops != max(sc.loops) + 1:
        raise Unsupported('structure of %s changed: %d loops, contract has %d' % (fn.qname, tr.nloops, max(sc.loops) + 1))
    return txt, tr


def select(idx, want, contracts):
    """Fn definitions for a unit entry 'key' -> list of (Fn, sidecar, generic)"""
    name, targs, pab = split_key(want)
    out = []
    for f in idx.defs:
        if f.qname != name:
            continue
        try:
            n, t, p = fn_key(f)
        except Unsupported:
            if not name.startswith('operator'):
                raise
            continue  # an operator on other types
        if f.node['kind'] == 'CXXConstructorDecl' and (not f.params or f.node.get('isImplicit')):
            continue
        gen = next((x for x in t if x in ITER), None)
        if targs and 'K' in targs:
            tt = ['K' if x == gen else x for x in t]
        else:
            tt = t
        if (targs or []) != tt:
            continue
        if pab is not None and pab != p:
            continue
        out.append((f, gen if (targs and 'K' in targs) else None))
    return out


def spec_text(s):
    """a lemma file, or (FILE:LEMMA) the statement of one lemma of a file that another unit proves"""
    f, _, lem = s.partition(':')
    t = open(os.path.join(ROOT, 'spec', f + '.rs')).read()
    if not lem:
        return t
    m = re.search(r'^pub proof fn %s\(.*?(?=^\{)' % re.escape(lem), t, re.S | re.M)
    return '#[verifier::external_body] // proved with spec/%s.rs\n%s{ }\n' % (f, m.group(0))


def build_unit(u, contracts):
    if isinstance(u, PyUnit):
        return build_pyunit(u, contracts)
    """-> (text, info).  Raises Unsupported / ExtractError."""
    idx = load_index(u.tu, u.filt)
    env = Env(idx, contracts)
    env.tu_path = u.tu if os.path.isabs(u.tu) else os.path.join(REPO, u.tu)
    parts, proved, mapping = [], [], []
    for key in u.fns:
        cands = select(idx, key, contracts)
        if not cands:
            raise Unsupported('function %s not found in %s' % (key, u.tu))
        texts = {}
        for f, gen in cands:
            n, t, p = fn_key(f, gen)
            sc = contracts.find(n, t, p)
            if sc is None:
                raise Unsupported('no contract for ' + key)
            if gen:
                sc = sc.subst({'$K': 'ABS()'})
            rn = mangle(n, t, p, f.cls)
            if f.node['kind'] == 'CXXConstructorDecl':
                rn = f.cls + '__new'
            txt, tr = translate(f, env, sc, gen, rn)
            texts.setdefault(txt, []).append((f, rn))
        if len(cands) > 1 and not any(g for _, g in cands):
            raise Unsupported('ambiguous function ' + key)
        if len(texts) > 1:
            raise Unsupported('instantiations of %s differ between index sets' % key)
        txt, fl = next(iter(texts.items()))
        parts.append('// ---- extracted from %s: %s (%d instantiation(s))\n%s' % (u.tu, key, len(fl), txt))
        proved.append(fl[0][1])
        mapping.append((key, fl[0][1], len(fl)))
    stubs = []
    names = set(proved)
    for rn, (f, sc, gen) in list(env.needed.items()):
        if rn in names:
            continue
        names.add(rn)
        tr = Translator(f, env, sc, gen)
        t = tr.text(rn, stub=True)
        stubs.append(t)
    pre = open(os.path.join(ROOT, 'spec', 'prelude.rs')).read()
    # lines tagged //@if SPEC only with that spec file, //@ifused TEXT only when the generated code has TEXT (a fact some units need and others are slowed down by)
    used = '\n'.join(parts + stubs)

    def wanted(l):
        if '//@ifused ' in l:
            return l.split('//@ifused ')[1].strip() in used
        return '//@if ' not in l or l.split('//@if ')[1].strip() in u.specs
    pre = '\n'.join(l for l in pre.split('\n') if wanted(l))
    specs = [spec_text(s) for s in u.specs]
    text = pre + '\n' + 'verus!{\n' + env.lit_text() + '\n' + '\n'.join(specs) + '\n/*UNIT-FUNCTIONS*/\n' + '\n\n'.join(stubs) + '\n\n' + '\n\n'.join(parts) + '\n' + u.extra + '\n}\nfn main() {}\n'
    info = {'proved': mapping, 'stubs': sorted(n for n in names if n not in proved), 'inlined': sorted(env.inlined),
            'trusted_stubs': sorted(rn for rn, (f, sc, g) in env.needed.items() if sc.trusted)}
    return text, info
