"""Mechanical translation of the clang AST of /repo's functions into Verus (Rust) text.

The translation is syntax-directed, one C++ construct to one Rust construct, driven only by the
AST of the current source.  Everything it drops or abstracts is listed in DESIGN.md ("What the
extraction drops").  Contracts, loop invariants and proof hints come from the sidecar files and
are attached by structure (see contracts.py); the executable text never comes from them.
"""
import re
from fractions import Fraction
from clangast import inner

KINDS = ('Triangle', 'Cube', 'Cross', 'Cross_nc', 'Rectangle')
ITER = {'Triangle_iterator': 'Triangle', 'Cube_iterator': 'Cube', 'Cross_iterator': 'Cross',
        'Cross_iterator_nc': 'CrossNc', 'Rectangle_iterator': 'Rectangle'}
RUST_KW = {'as', 'break', 'const', 'continue', 'crate', 'else', 'enum', 'extern', 'false', 'fn', 'for', 'if',
           'impl', 'in', 'let', 'loop', 'match', 'mod', 'move', 'mut', 'pub', 'ref', 'return', 'self', 'static',
           'struct', 'super', 'trait', 'true', 'type', 'unsafe', 'use', 'where', 'while', 'async', 'await',
           'dyn', 'box', 'do', 'final', 'macro', 'override', 'priv', 'typeof', 'unsized', 'virtual', 'yield',
           'requires', 'ensures', 'invariant', 'decreases', 'forall', 'exists', 'choose', 'assert', 'assume',
           'proof', 'spec', 'exec', 'ghost', 'tracked', 'open', 'closed', 'old', 'by', 'via', 'when', 'is',
           'implies', 'int', 'nat', 'real', 'R', 'seq', 'map', 'set', 'matches', 'has'}


class Unsupported(Exception):
    pass


def rname(n):
    return n + '_' if n in RUST_KW else n


# ------------------------------------------------------------------ types

def split_targs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == '<':
            d += 1
        if c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


ALIAS = {'u_int': 'u32', 'unsigned int': 'u32', 'unsigned': 'u32', 'int': 'i32', 'long': 'i64', 'unsigned long': 'usize',
         'size_t': 'usize', 'std::size_t': 'usize', 'size_type': 'usize', 'bool': 'bool', 'double': 'f64', 'void': 'void',
         'Py_intptr_t': 'i64', 'npy_intp': 'i64', 'ptrdiff_t': 'i64', 'std::ptrdiff_t': 'i64', 'difference_type': 'i64',
         'char': 'i8', 'uint32_t': 'u32', 'int32_t': 'i32', 'uint64_t': 'usize', 'int64_t': 'i64',
         'unsigned long long': 'usize', 'long long': 'i64', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16',
         'ivec': ('vec', 'u32'), 'imat': ('vec', ('vec', 'u32')), 'icube': ('vec', ('vec', ('vec', 'u32'))),
         'vec': ('vec', 'f64'), 'mat': ('vec', ('vec', 'f64')), 'cube': ('vec', ('vec', ('vec', 'f64'))),
         'c_mat': ('vec', ('vec', 'f64')), 'c_cube': ('vec', ('vec', ('vec', 'f64'))),
         'string': 'str', 'std::string': 'str', 'std::basic_string<char>': 'str', 'basic_string<char>': 'str',
         'std::basic_string<char, std::char_traits<char>, std::allocator<char>>': 'str',
         'spmat': 'spmat', 'boost_mat': 'bmat', 'cmat': 'cmat', 'Grid_iterator': 'grid',
         'Multi_index_iterator': 'miter', 'Vector_iterator': 'viter', 's_func': 'sfunc',
         'ostream': 'ostream', 'std::ostream': 'ostream', 'std::basic_ostream<char>': 'ostream',
         'it1_t': 'spit1', 'it2_t': 'spit2', 'cit1_t': 'spit1', 'cit2_t': 'spit2',
         'np::ndarray': 'ndarray', 'ndarray': 'ndarray', 'boost::python::numpy::ndarray': 'ndarray',
         'index': 'i64', 'boost::multi_array_types::index': 'i64', 'np::dtype': 'pdtype', 'dtype': 'pdtype', 'boost::python::numpy::dtype': 'pdtype', 'p::tuple': 'ptuple', 'tuple': 'ptuple', 'boost::python::tuple': 'ptuple',
         'p::object': 'pyobj', 'object': 'pyobj', 'boost::python::api::object': 'pyobj', 'boost::python::object': 'pyobj',
         'const_iterator1': 'spit1', 'const_iterator2': 'spit2'}


def norm(q):
    """clang type string -> internal type"""
    q = q.strip()
    while True:
        q0 = q
        q = re.sub(r'\bconst\b', '', q).strip()
        q = re.sub(r'\b(class|struct|typename|volatile)\b', '', q).strip()
        q = re.sub(r'^hermite::', '', q)
        q = re.sub(r'\s+', ' ', q)
        if q.endswith('&&'):
            q = q[:-2].strip()
        if q.endswith('&'):
            q = q[:-1].strip()
        if q == q0:
            break
    if q in ALIAS:
        return ALIAS[q]
    if q in ITER or q == 'Abs_iterator':
        return ('iter', q)
    if q == 'double (*)(double *)':
        return 'sfunc'
    if q.endswith('*'):
        return ('ptr', norm(q[:-1]))
    m = re.match(r'^(?:std::)?vector<(.*)>$', q)
    if m:
        a = split_targs(m.group(1))
        return ('vec', norm(a[0]))
    m = re.match(r'^(?:std::)?unordered_map<(.*)>$', q)
    if m:
        return 'ht'
    m = re.match(r'^(?:std::)?unique_ptr<(.*)>$', q)
    if m:
        return ('box', norm(split_targs(m.group(1))[0]))
    if 'compressed_matrix<' in q and q.endswith('const_iterator1'):
        return 'spit1'
    if 'compressed_matrix<' in q and q.endswith('const_iterator2'):
        return 'spit2'
    if re.match(r'^(boost::numeric::ublas::)?matrix<.*>$', q):
        return 'bmat'
    if re.match(r'^(boost::numeric::ublas::)?matrix<.*const_iterator1$', q):
        return 'bmit1'
    if re.match(r'^(boost::numeric::ublas::)?matrix<.*const_iterator2$', q):
        return 'bmit2'
    if re.match(r'^(boost::numeric::ublas::)?compressed_matrix<.*>$', q):
        return 'spmat'
    if re.match(r'^boost::(const_)?multi_array(_ref)?<double, 2.*>$', q):
        return 'cmat'
    if q.startswith('(lambda') or '(lambda at' in q:
        return 'closure'
    if re.match(r'^(std::)?function<', q):
        return 'closure'
    if '_hash' in q and 'iterator' in q.lower() or '_Node_iterator' in q or '_Node_const_iterator' in q:
        return 'htit'
    if '(*)' in q:
        return 'fnptr'
    if re.match(r'^std::complex<double>$', q):
        return 'f64'
    return ('?', q)


def node_ty(n):
    t = n.get('type', {})
    cands = []
    if 'desugaredQualType' in t:
        cands.append(t['desugaredQualType'])
    cands.append(t.get('qualType', ''))
    r = None
    for c in cands:
        r = norm(c)
        if not has_unknown(r):
            return r
    return r


def has_unknown(t):
    if isinstance(t, tuple):
        return t[0] == '?' or any(has_unknown(x) for x in t[1:] if isinstance(x, tuple))
    return False


def rust_ty(t):
    if isinstance(t, tuple):
        if t[0] == 'vec':
            return 'Vec<%s>' % rust_ty(t[1])
        if t[0] in ('iter', 'box'):
            return 'MIter'
        if t[0] == 'ptr' and t[1] == 'f64':
            return 'PtrF64'
        if t[0] == 'ptr' and t[1] == 'i64':
            return 'PtrI64'
        if t[0] == 'ptr' and t[1] == 'usize':
            return 'PtrUsz'
        raise Unsupported('type %r' % (t,))
    m = {'f64': 'R', 'str': 'Str', 'miter': 'MIter', 'grid': 'MIter', 'spmat': 'SpMat', 'bmat': 'BMat', 'cmat': 'CMat',
         'ht': 'HT', 'void': '()', 'ndarray': 'NdArray', 'spit1': 'SpIt1', 'spit2': 'SpIt2', 'bmit1': 'BmIt1', 'bmit2': 'BmIt2',
         'fnptr': 'u32', 'sfunc': 'SFunc', 'viter': 'MIter',
         'ptuple': 'PTuple', 'pdtype': 'PDtype', 'pyobj': 'PyObj'}
    if t in m:
        return m[t]
    if t in ('u32', 'i32', 'i64', 'usize', 'bool', 'u8'):
        return t
    raise Unsupported('type %r' % (t,))


INTS = ('u32', 'i32', 'i64', 'usize')


def is_ref(q):
    return q.strip().endswith('&')


def is_const_ref(q):
    q = q.strip()
    return q.endswith('&') and bool(re.search(r'\bconst\b', q))


# ------------------------------------------------------------------ function translation

class LoopInfo:
    def __init__(self, idx, kind):
        self.idx, self.kind = idx, kind


class Translator:
    """Translate one Fn.  `env` supplies: resolve(id)->Fn, callee(Fn, generic_kind)->rust name,
    lit(str)->rust fn name, inline decisions."""

    def __init__(self, fn, env, sidecar=None, generic=None):
        self.fn, self.env, self.sc, self.generic = fn, env, sidecar, generic
        self.nloops = self.nret = self.nif = 0
        self.ind = 1
        self.steps = []      # stack of per-loop continue-steps (list of nodes) or marker
        self.scopes = [{}]   # decl id -> rust name
        self.decls = []      # locals in declaration order (name,type)
        self.fnptr = {}      # decl id -> list of Fn tags
        self.is_ctor = fn.node['kind'] == 'CXXConstructorDecl'
        self.loop_depth = 0
        self.tmp = 0
        self.anchors = set()
        self.closures = 0
        self.readonly = set()
        self.self_name = 'this'
        self.inline_depth = 0
        self.ret_to = None
        self.deref_params = set()
        self.rename = {}

    # -- helpers
    def fresh(self, p='__t'):
        self.tmp += 1
        return '%s%d' % (p, self.tmp)

    def lookup(self, id_):
        for s in reversed(self.scopes):
            if id_ in s:
                return s[id_]
        return None

    def declare(self, node, name=None):
        nm = name or rname(node['name'])
        nm = self.rename.get(nm, nm)
        self.scopes[-1][node['id']] = nm
        return nm

    def hint(self, anchor):
        """proof text of the sidecar for an anchor"""
        self.anchors.add(anchor)
        if self.inline_depth or self.sc is None:
            return []
        return self.sc.hints.get(anchor, [])

    # -- integer conversions
    def conv(self, e, a, b):
        if a == b:
            return e
        if a == 'f64' and b in INTS:
            return 'r_to_%s(%s)' % (b, e)
        if b == 'f64':
            if a in INTS or a == 'bool':
                return 'r_from_%s(%s)' % (a, e)
        if b == 'bool':
            if a in INTS:
                return '(%s != 0)' % e
        if a == 'bool' and b in INTS:
            return 'bool_to_%s(%s)' % (b, e)
        if a in INTS and b in INTS:
            lit = re.match(r'^(\d+)([iu]\d+|usize)$', e)
            if lit and int(lit.group(1)) < 2**31:
                return lit.group(1) + b
            return '%s_to_%s(%s)' % (a, b, e)
        raise Unsupported('conversion %s -> %s' % (a, b))

    # -- expressions: value (rvalue) text
    def ex(self, n):
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(n)

    def x_ParenExpr(self, n):
        return self.ex(inner(n)[0])

    x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = \
        x_SubstNonTypeTemplateParmExpr = x_ParenExpr

    def x_IntegerLiteral(self, n):
        return '%s%s' % (n['value'], node_ty(n))

    def x_CXXBoolLiteralExpr(self, n):
        return 'true' if n['value'] else 'false'

    def x_FloatingLiteral(self, n):
        v = float(n['value'])
        if v == int(v) and abs(v) < 2**31:
            return 'r_from_i32(%di32)' % int(v) if v >= 0 else 'r_from_i32((%d)i32)' % int(v)
        if abs(v - 3.14159265358979323846) < 1e-17:
            return 'r_pi()'
        if v == 0.5:
            return 'r_half()'
        num, den = Fraction(repr(v)).as_integer_ratio()
        if abs(num) < 2**120 and den < 2**120:
            return 'r_dec(%si128, %di128)' % (num if num >= 0 else '(%d)' % num, den)
        raise Unsupported('float literal %s' % n['value'])

    def strip(self, n):
        while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') or \
                n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue', 'FunctionToPointerDecay',
                                                                          'UncheckedDerivedToBase', 'DerivedToBase', 'ArrayToPointerDecay') or \
                (n['kind'] == 'CXXConstructExpr' and n.get('elidable') and len(inner(n)) == 1):
            n = inner(n)[0]
        return n

    def x_StringLiteral(self, n):
        v = n['value']
        import ast as _ast
        return self.env.lit(_ast.literal_eval(v)) + '()'

    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        nm = self.lookup(rd['id'])
        if nm is None:
            if rd['kind'] == 'FunctionDecl' or rd['kind'] == 'CXXMethodDecl':
                raise Unsupported('function reference ' + rd.get('name', '?'))
            raise Unsupported('reference to ' + rd.get('name', '?'))
        return nm

    def place(self, n):
        """lvalue text"""
        n = self.strip_l(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            nm = self.x_DeclRefExpr(n)
            if nm in self.deref_params:
                return nm
            return nm
        if k == 'MemberExpr':
            return self.x_MemberExpr(n)
        if k == 'CXXOperatorCallExpr':
            return self.opcall(n, lvalue=True)
        if k == 'ArraySubscriptExpr':
            raise Unsupported('raw pointer store')
        if k == 'UnaryOperator' and n['opcode'] == '*':
            raise Unsupported('raw pointer deref')
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'ConditionalOperator'):
            return self.ex(n)
        raise Unsupported('lvalue ' + k)

    def strip_l(self, n):
        while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') or \
                n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'LValueToRValue'):
            n = inner(n)[0]
        return n

    def x_CXXThisExpr(self, n):
        return self.self_name

    def x_MemberExpr(self, n):
        b = inner(n)[0]
        base = self.place(b) if b['kind'] != 'CXXThisExpr' and self.strip_l(b)['kind'] != 'CXXThisExpr' else self.self_name
        return '%s.%s' % (base, rname(n['name']))

    def is_copy_ty(self, t):
        return t in INTS or t in ('bool', 'f64', 'fnptr', 'spit1', 'spit2', 'bmit1', 'bmit2', 'sfunc', 'ptuple', 'pdtype', 'pyobj') or (isinstance(t, tuple) and t[0] == 'ptr')

    def clone(self, e, t):
        if self.is_copy_ty(t):
            return e
        if isinstance(t, tuple) and t[0] == 'vec':
            d = 1
            u = t[1]
            while isinstance(u, tuple) and u[0] == 'vec':
                d += 1
                u = u[1]
            base = {'u32': 'u', 'f64': 'r', 'bool': 'b'}.get(u)
            if u == 'spmat' and d == 1:
                return 'clone_vsp(&%s)' % e
            if base is None or d > 3:
                raise Unsupported('copy of %r' % (t,))
            return 'clone_%s%d(&%s)' % (base, d, e)
        m = {'str': 'clone_str', 'spmat': 'clone_sp', 'bmat': 'clone_bm'}
        if t in m:
            return '%s(&%s)' % (m[t], e)
        if isinstance(t, tuple) and t[0] == 'iter':
            return 'clone_miter(&%s)' % e
        raise Unsupported('copy of %r' % (t,))

    def x_ImplicitCastExpr(self, n):
        ck = n['castKind']
        c = inner(n)[0]
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay',
                  'FunctionToPointerDecay'):
            return self.ex(c)
        if ck == 'LValueToRValue':
            return self.ex(c)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean'):
            return self.conv(self.ex(c), node_ty(c), node_ty(n))
        if ck == 'FloatingCast':
            return self.ex(c)
        if ck == 'ToVoid':
            return self.ex(c)
        if ck == 'BitCast' and node_ty(n) == ('ptr', 'f64') and self.strip(c)['kind'] == 'CallExpr':
            return self.ex(c)
        if ck == 'BitCast' and node_ty(n) == ('ptr', 'void') and (node_ty(c) == ('ptr', 'f64') or self.strip(c)['kind'] == 'CXXMemberCallExpr'):
            return self.ex(c)
        raise Unsupported('cast ' + ck)

    def x_CStyleCastExpr(self, n):
        return self.x_ImplicitCastExpr(n)

    x_CXXStaticCastExpr = x_CStyleCastExpr

    def x_CXXFunctionalCastExpr(self, n):
        return self.x_ImplicitCastExpr(n)

    def x_UnaryOperator(self, n):
        op, c = n['opcode'], inner(n)[0]
        t = node_ty(n)
        if op == '!':
            return '(!%s)' % self.ex(c)
        if op == '-':
            if t == 'f64':
                return 'r_neg(%s)' % self.ex(c)
            if t in ('i32', 'i64'):
                return 'neg_%s(%s)' % (t, self.ex(c))
            if t == 'u32':
                return 'sub_u32(0u32, %s)' % self.ex(c)
        if op == '+':
            return self.ex(c)
        if op in ('++', '--'):
            t = node_ty(c)
            p = self.place(c)
            if t == 'spit1' or t == 'spit2' or t == 'bmit1' or t == 'bmit2':
                raise Unsupported('iterator increment as expression')
            new = self.arith('+' if op == '++' else '-', t, p, '1' + t)
            if n.get('isPostfix'):
                v = self.fresh()
                return '{ let %s = %s; %s = %s; %s }' % (v, p, p, new, v)
            return '{ %s = %s; %s }' % (p, new, p)
        if op == '*':
            b = self.strip(c)
            bt = node_ty(b)
            if isinstance(bt, tuple) and bt[0] == 'box':
                return self.ex(b)
        raise Unsupported('unary ' + op)

    def arith(self, op, t, a, b):
        if t == 'f64':
            f = {'+': 'r_add', '-': 'r_sub', '*': 'r_mul', '/': 'r_div'}.get(op)
            if f:
                return '%s(%s, %s)' % (f, a, b)
        if t in INTS:
            f = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}.get(op)
            if f:
                return '%s_%s(%s, %s)' % (f, t, a, b)
        if t == 'str' and op == '+':
            return 'str_add(%s, %s)' % (a, b)
        raise Unsupported('operator %s on %r' % (op, t))

    CMP = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = inner(n)
        if op == '=':
            return self.assign(n)
        if op == ',':
            return '{ %s; %s }' % (self.ex(a), self.ex(b))
        if op in ('&&', '||'):
            return '(%s %s %s)' % (self.ex(a), op, self.ex(b))
        t = node_ty(a)
        if op in self.CMP:
            if t == 'f64':
                return 'r_%s(%s, %s)' % (self.CMP[op], self.ex(a), self.ex(b))
            if t in INTS or t == 'bool':
                return '(%s %s %s)' % (self.ex(a), op, self.ex(b))
            raise Unsupported('compare %r' % (t,))
        if op in ('+', '-') and node_ty(n) == ('ptr', 'f64'):
            p, k = (a, b) if t == ('ptr', 'f64') else (b, a)
            off = self.as_ty(k, 'i64')
            return 'ptr_add(%s, %s)' % (self.ptr_ref(p), off if op == '+' else 'neg_i64(%s)' % off)
        return self.arith(op, node_ty(n), self.ex(a), self.ex(b))

    def cell3(self, n):
        """v[i][j][k] of a vec<vec<vec<f64>>>: (base text, index texts), else None"""
        ix = []
        n = self.strip_l(n)
        while n['kind'] == 'CXXOperatorCallExpr' and self.opname(n) == 'operator[]' and len(ix) < 3:
            a = inner(n)[1:]
            ix.append(a[1])
            n = self.strip_l(a[0])
        if len(ix) != 3 or node_ty(n) != ('vec', ('vec', ('vec', 'f64'))):
            return None
        base = self.place(n)
        return (base, '%s, %s, %s' % tuple(self.idx(x) for x in reversed(ix)))

    def cell_cm(self, n):
        """m[i][j] of a boost::multi_array: (base text, index texts), else None"""
        ix = []
        n = self.strip_l(n)
        while n['kind'] == 'CXXOperatorCallExpr' and self.opname(n) == 'operator[]' and len(ix) < 2:
            a = inner(n)[1:]
            ix.append(a[1])
            n = self.strip_l(a[0])
        if len(ix) != 2 or node_ty(n) != 'cmat':
            return None
        return (self.place(n), '%s, %s' % tuple(self.as_ty(x, 'i64') for x in reversed(ix)))

    def store3(self, c, v):
        return '{ let __v = %s; set_r3(%s%s, %s, __v); }' % (v, '&mut *' if c[0] in self.deref_params else '&mut ', c[0], c[1])

    def assign(self, n):
        a, b = inner(n)
        c = self.cell3(a)
        if c:
            return self.store3(c, self.ex(b))
        if self.is_ptr_cell(a):
            return self.ptr_store(a, self.ex(b))
        c = self.cell_cm(a)
        if c:
            return '{ let __v = %s; cm_set(%s%s, %s, __v); }' % (self.ex(b), '&mut *' if c[0] in self.deref_params else '&mut ', c[0], c[1])
        p = self.place(a)
        t = node_ty(a)
        if t == 'fnptr':
            return '%s = %s' % (p, self.fnptr_val(a, b))
        v = self.ex(b)
        return '{ let __v = %s; %s = __v; }' % (v, p) if '[' in p or '(' in p else '%s = %s' % (p, v)

    def fnptr_val(self, var, val):
        vid = self.strip(var)['referencedDecl']['id'] if isinstance(var, dict) and self.strip(var)['kind'] == 'DeclRefExpr' else var
        f = self.strip(val)
        if f['kind'] == 'UnaryOperator' and f['opcode'] == '&':
            f = self.strip(inner(f)[0])
        if f['kind'] != 'DeclRefExpr':
            raise Unsupported('function pointer value')
        target = self.env.resolve(f['referencedDecl']['id'])
        if target is None:
            raise Unsupported('function pointer to unknown function')
        tags = self.fnptr.setdefault(vid, [])
        for i, x in enumerate(tags):
            if x is target:
                return '%du32' % i
        tags.append(target)
        return '%du32' % (len(tags) - 1)

    def x_CompoundAssignOperator(self, n):
        a, b = inner(n)
        op = n['opcode'][:-1]
        lt = node_ty(a)
        ct = norm(n['computeResultType'].get('desugaredQualType') or n['computeResultType']['qualType'])
        c = self.cell3(a)
        if c:
            return self.store3(c, self.conv(self.arith(op, ct, self.conv(self.ex(a), lt, ct), self.ex(b)), ct, lt))
        if self.is_ptr_cell(a):
            return self.ptr_store(a, self.conv(self.arith(op, ct, self.conv(self.ex(self.strip_l(a)), lt, ct), self.ex(b)), ct, lt))
        p = self.place(a)
        rhs = self.ex(b)
        cur = self.conv(p, lt, ct)
        v = self.conv(self.arith(op, ct, cur, rhs), ct, lt)
        return '{ let __v = %s; %s = __v; }' % (v, p) if '[' in p else '%s = %s' % (p, v)

    def x_ConditionalOperator(self, n):
        c, a, b = inner(n)
        t = node_ty(n)
        ea, eb = self.ex(a), self.ex(b)
        if not self.is_copy_ty(t) and n.get('valueCategory') == 'lvalue':
            return '(*(if %s { &%s } else { &%s }))' % (self.ex(c), ea, eb)
        return '(if %s { %s } else { %s })' % (self.ex(c), ea, eb)

    # ---- constructors
    def x_CXXConstructExpr(self, n):
        t = node_ty(n)
        args = [a for a in inner(n) if a['kind'] != 'CXXDefaultArgExpr']
        return self.construct(t, args, n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct(self, t, args, n=None):
        if isinstance(t, tuple) and t[0] == 'vec':
            et = t[1]
            if len(args) == 0:
                return 'Vec::new()'
            if len(args) == 1:
                at = node_ty(args[0])
                if at == t:
                    s = self.strip(args[0])
                    e = self.ex(args[0])
                    if self.is_rvalue(args[0]):
                        return e
                    return self.clone(self.place(args[0]), t)
                if at in INTS:
                    return self.vec_fill(et, self.ex(args[0]), None)
            if len(args) == 2:
                at = node_ty(args[0])
                if at in INTS:
                    return self.vec_fill(et, self.ex(args[0]), args[1])
                if isinstance(at, tuple) and at[0] == 'ptr':
                    return 'vec_from_range(%s, %s)' % (self.ptr_ref(args[0]), self.ptr_ref(args[1]))
            raise Unsupported('vector constructor')
        if t == 'str':
            if len(args) == 0:
                return self.env.lit('') + '()'
            a = self.strip(args[0])
            if a['kind'] == 'StringLiteral':
                return self.x_StringLiteral(a)
            if node_ty(args[0]) == 'str':
                e = self.ex(args[0])
                return e if self.is_rvalue(args[0]) else 'clone_str(&%s)' % e
        if t == 'spmat':
            if len(args) == 1 and node_ty(args[0]) == 'spmat':
                e = self.ex(args[0])
                return e if self.is_rvalue(args[0]) else 'clone_sp(&%s)' % e
            if len(args) == 0:
                return 'sp_new(0usize, 0usize)'
            if len(args) in (2, 3):
                return 'sp_new(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
            if len(args) == 1:
                return self.ex(args[0])
        if t == 'bmat':
            if len(args) == 1 and node_ty(args[0]) == 'bmat':
                e = self.ex(args[0])
                return e if self.is_rvalue(args[0]) else 'clone_bm(&%s)' % e
            if len(args) == 2:
                return 'bm_new(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
            if len(args) == 3:
                return 'bm_new_fill(%s, %s, %s)' % (self.ex(args[0]), self.ex(args[1]), self.ex(args[2]))
            if len(args) == 1:
                return self.ex(args[0])
        if t == 'cmat':
            if len(args) == 1 and node_ty(args[0]) == 'cmat' and self.is_rvalue(args[0]):
                return self.ex(args[0])
            if len(args) == 1:      # boost::extents[a][b]
                e, ix = self.strip(args[0]), []
                while e['kind'] == 'CXXOperatorCallExpr' and self.opname(e) == 'operator[]':
                    ix.append(inner(e)[2])
                    e = self.strip(inner(e)[1])
                if len(ix) == 2 and e['kind'] == 'DeclRefExpr' and e['referencedDecl']['name'] == 'extents':
                    return 'cm_new(%s, %s)' % (self.as_ty(ix[1], 'i64'), self.as_ty(ix[0], 'i64'))
            raise Unsupported('multi_array constructor')
        if t == 'pyobj' and len(args) == 0:
            return 'py_none()'
        if t in ('ptuple', 'pdtype', 'pyobj') and len(args) == 1 and node_ty(args[0]) == t:
            return self.ex(args[0])
        if t == 'grid':
            if len(args) == 1 and node_ty(args[0]) == 'grid':
                return self.ex(args[0])
            self.env.need('Grid_iterator::Grid_iterator')
            return 'Grid_iterator__new(&%s)' % self.ref_text(args[0])
        if isinstance(t, tuple) and t[0] == 'iter':
            if len(args) == 1:
                e = self.ex(args[0])
                return e if self.is_rvalue(args[0]) else 'clone_miter(&%s)' % e
            cls = self.generic_cls(t[1])
            self.env.need(cls + '::' + t[1])
            return '%s__new(%s)' % (cls, ', '.join(self.ex(a) for a in args))
        if isinstance(t, tuple) and t[0] == 'box':
            if len(args) == 0:
                return 'null_miter()'
            if len(args) == 1:
                return self.ex(args[0])
        if t in ('spit1', 'spit2', 'bmit1', 'bmit2', 'closure', 'ndarray') and len(args) == 1:
            return self.ex(args[0])
        if t == 'htit' and len(args) == 1:
            return self.ex(args[0])
        raise Unsupported('construct %r/%d' % (t, len(args)))

    def generic_cls(self, cls):
        if self.generic and cls == self.generic:
            return 'K_iterator'
        return cls

    def x_CXXNewExpr(self, n):
        return self.ex(inner(n)[-1])

    def is_rvalue(self, n):
        while n['kind'] in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') or \
                n['kind'] == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp':
            n = inner(n)[0]
        return n['kind'] == 'MaterializeTemporaryExpr' or n.get('valueCategory') == 'prvalue'

    def vec_fill(self, et, cnt, val):
        if et == 'u32':
            v = '0u32' if val is None else self.as_ty(val, 'u32')
            return 'vec_fill_u32(%s, %s)' % (cnt, v)
        if et == 'f64':
            v = 'r_from_i32(0i32)' if val is None else self.as_ty(val, 'f64')
            return 'vec_fill_r(%s, %s)' % (cnt, v)
        if et == 'bool':
            v = 'false' if val is None else self.ex(val)
            return 'vec_fill_b(%s, %s)' % (cnt, v)
        if et == 'spmat':
            if val is None:
                return 'vec_fill_spe(%s)' % cnt
            return 'vec_fill_sp(%s, &%s)' % (cnt, self.ex(val))
        if isinstance(et, tuple) and et[0] == 'vec':
            d, u = 1, et[1]
            while isinstance(u, tuple) and u[0] == 'vec':
                d += 1
                u = u[1]
            base = {'u32': 'u', 'f64': 'r'}.get(u)
            if base is None or d > 2:
                raise Unsupported('vector of %r' % (et,))
            if val is None:
                return 'vec_fill_%s%d(%s, &Vec::new())' % (base, d, cnt)
            return 'vec_fill_%s%d(%s, &%s)' % (base, d, cnt, self.ex(val))
        raise Unsupported('vector of %r' % (et,))

    def as_ty(self, n, t):
        return self.conv(self.ex(n), node_ty(n), t)

    # ---- operators on objects
    def opname(self, n):
        c = self.strip(inner(n)[0])
        return c['referencedDecl']['name']

    def x_CXXOperatorCallExpr(self, n):
        c = self.cell3(n)
        if c:
            return 'get_r3(&%s, %s)' % c
        c = self.cell_cm(n)
        if c:
            return 'cm_get(&%s, %s)' % c
        return self.opcall(n)

    def idx(self, n):
        """index expression as usize"""
        t = node_ty(n)
        e = self.ex(n)
        if t == 'usize':
            m = re.match(r'^u32_to_usize\((.*)\)$', e)
            return e
        return self.conv(e, t, 'usize')

    def opcall(self, n, lvalue=False):
        name = self.opname(n)
        args = inner(n)[1:]
        t0 = node_ty(args[0])
        if name == 'operator[]':
            if isinstance(t0, tuple) and t0[0] == 'vec':
                return '%s[%s]' % (self.place(args[0]), self.idx(args[1]))
            if t0 in ('miter', 'grid', 'viter') or isinstance(t0, tuple) and t0[0] == 'iter':
                f = self.env.resolve(self.strip(inner(n)[0])['referencedDecl']['id'])
                how = self.env.callee(f, self) if f else None
                if not how or how[0] == 'inline':
                    raise Unsupported('operator[] of an iterator')
                return '%s(&%s, %s)' % (how[1], self.place(args[0]), self.ex(args[1]))
        if name == 'operator=':
            la = self.strip_l(args[0])
            if la['kind'] == 'CXXOperatorCallExpr' and self.opname(la) == 'operator[]' and self.nd_base(inner(la)[1]) is not None:
                v = self.strip(args[1])
                if node_ty(v) != 'ndarray' or not self.is_rvalue(args[1]):
                    raise Unsupported('row store on an ndarray')
                return '{ let __v = %s; nd_set_row(&mut %s, %s, __v); }' % (self.ex(args[1]), self.nd_base(inner(la)[1]), self.as_ty(inner(la)[2], 'i64'))
            p = self.place(args[0])
            if t0 in ('ptuple', 'pdtype', 'pyobj'):
                return '%s = %s' % (p, self.ex(args[1]))
            if isinstance(t0, tuple) and t0[0] == 'box':
                return '%s = %s' % (p, self.ex(args[1]))
            ms = self.strip(args[1])
            if t0 in ('spmat', 'bmat') and ms['kind'] == 'CXXOperatorCallExpr' and self.opname(ms) in ('operator+', 'operator*'):
                tv, v = self.env.mat_expr(self, ms)
                if tv != t0:
                    raise Unsupported('assignment of %r to %r' % (tv, t0))
            elif self.is_rvalue(args[1]):
                v = self.ex(args[1])
            else:
                v = self.clone(self.place(args[1]), node_ty(args[1]))
            # sparse/boost proxies: result(i,j) = v
            la = self.strip_l(args[0])
            if la['kind'] == 'CXXOperatorCallExpr' and self.opname(la) == 'operator()':
                return self.mat_set(la, args[1])
            if '[' in p:
                return '{ let __v = %s; %s = __v; }' % (v, p)
            return '%s = %s' % (p, v)
        if name == 'operator()':
            if t0 == 'closure':
                return '%s(%s)' % (self.place(args[0]), ', '.join(self.ex(a) for a in args[1:]))
            if t0 in ('spmat', 'bmat'):
                f = 'sp_get' if t0 == 'spmat' else 'bm_get'
                if lvalue:
                    return '%s@(%s)' % (f, t0)
                return '%s(&%s, %s, %s)' % (f, self.place(args[0]), self.ex(args[1]), self.ex(args[2]))
        if name in ('operator==', 'operator!='):
            t1 = node_ty(args[1])
            if t0 == 'str' or t1 == 'str' or t0 == ('ptr', 'i8'):
                e = 'str_eq(&%s, &%s)' % (self.str_arg(args[0]), self.str_arg(args[1]))
                return e if name == 'operator==' else '(!%s)' % e
            # hash_table.find(x) == hash_table.end()
            a, b = self.find_end(args[0]), self.find_end(args[1])
            if a and b and a[0] != b[0]:
                f = a if a[0] == 'find' else b
                e = '(!ht_contains(&%s, &%s))' % (f[1], f[2])
                return e if name == 'operator==' else '(!%s)' % e
            if t0 in ('spit1', 'spit2', 'bmit1', 'bmit2') or True:
                ends = self.strip(args[1])
                raise Unsupported('iterator comparison')
        if name == 'operator+' and node_ty(n) == 'str':
            return 'str_add(&%s, &%s)' % (self.str_arg(args[0]), self.str_arg(args[1]))
        if name == 'operator+=' and t0 == 'str':
            p = self.place(args[0])
            return '%s = str_add(&%s, &%s)' % (p, p, self.str_arg(args[1]))
        if name == 'operator*' and len(args) == 1:
            if isinstance(t0, tuple) and t0[0] == 'box':
                return self.place(args[0])
            if t0 in ('spit2', 'bmit2'):
                return self.sp_iter_member(args[0], 'value')
        if name == 'operator->':
            return self.place(args[0])
        if name in ('operator+', 'operator*', 'operator-') and len(args) == 2:
            return self.env.obj_op(self, name, args, n)
        if name == 'operator<<':
            raise Unsupported('stream expression')
        raise Unsupported('operator %s on %r' % (name, t0))

    def nd_base(self, n):
        """the ndarray variable under casts to its object base"""
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr'):
            if node_ty(n) == 'ndarray':
                break
            n = inner(n)[0]
        if n['kind'] == 'DeclRefExpr' and node_ty(n) == 'ndarray':
            return self.lookup(n['referencedDecl']['id'])
        return None

    def src(self, n):
        """source text of an expression"""
        b, e = n['range']['begin'], n['range']['end']
        f = self.env.tu_path
        return open(f, 'rb').read()[b['offset']:e['offset'] + e['tokLen']].decode()

    def str_arg(self, n):
        s = self.strip(n)
        if s['kind'] == 'StringLiteral':
            return self.x_StringLiteral(s)
        if node_ty(s) == 'str':
            return self.place(n) if s['kind'] in ('DeclRefExpr', 'MemberExpr') else self.ex(n)
        return self.ex(n)

    def find_end(self, n):
        n = self.strip(n)
        if n['kind'] == 'CXXConstructExpr' and len(inner(n)) == 1:
            n = self.strip(inner(n)[0])
        if n['kind'] == 'CXXMemberCallExpr':
            me = self.strip(inner(n)[0])
            obj = inner(me)[0]
            if node_ty(obj) == 'ht':
                if me['name'] == 'find':
                    return ('find', self.place(obj), self.str_arg(inner(n)[1]))
                if me['name'] == 'end':
                    return ('end', self.place(obj))
        return None

    def mat_set(self, la, val):
        a = inner(la)[1:]
        t0 = node_ty(a[0])
        f = {'spmat': 'sp_set', 'bmat': 'bm_set'}.get(t0)
        if not f:
            raise Unsupported('element store on %r' % (t0,))
        p = self.place(a[0])
        return '{ let __v = %s; %s(%s%s, %s, %s, __v); }' % (self.as_ty(val, 'f64'), f, '&mut *' if p in self.deref_params else '&mut ', p, self.ex(a[1]), self.ex(a[2]))

    # ---- calls
    def arg_list(self, callee_params, args):
        out = []
        for i, a in enumerate(args):
            q = callee_params[i] if i < len(callee_params) else ''
            out.append(self.pass_arg(q, a))
        return out

    def pass_arg(self, q, a):
        t = norm(q) if q else node_ty(a)
        at = node_ty(a)
        if t == ('ptr', 'f64'):
            return self.ptr_ref(a, True)
        if is_ref(q):
            if self.is_copy_ty(t) and is_const_ref(q):
                return self.ex(a)
            p = self.ref_text(a)
            if is_const_ref(q):
                return '&' + p
            return ('&mut *' if p in self.deref_params else '&mut ') + p
        if self.is_copy_ty(t):
            return self.ex(a)
        if t == 'closure':
            return self.ex(a)
        if self.is_rvalue(a):
            return self.ex(a)
        return self.clone(self.place(a), at)

    def ref_text(self, a):
        s = self.strip_l(a)
        if s['kind'] in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr'):
            return self.place(a)
        return self.ex(a)

    def param_types(self, f):
        return [p['type']['qualType'] for p in f.params]

    MATH = {'sqrt': 'r_sqrt', 'cos': 'r_cos', 'sin': 'r_sin', 'abs': 'r_abs', 'fabs': 'r_abs'}

    def x_CallExpr(self, n):
        c = self.strip(inner(n)[0])
        args = inner(n)[1:]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = c['referencedDecl']
            name = rd['name']
            f = self.env.resolve(rd['id'])
            if f is None:
                if name in self.MATH and len(args) == 1:
                    t = node_ty(args[0])
                    if name == 'abs' and t != 'f64':
                        raise Unsupported('integer abs')
                    return '%s(%s)' % (self.MATH[name], self.as_ty(args[0], 'f64'))
                if name == 'pow':
                    ta, tb = node_ty(args[0]), node_ty(args[1])
                    a, b = self.strip_int(args[0]), self.strip_int(args[1])
                    if a and b:
                        return 'r_pow(%s, %s)' % (a, b)
                    raise Unsupported('pow of reals')
                if name == 'binomial_coefficient':
                    if node_ty(n) != 'f64':
                        raise Unsupported('binomial coefficient not in double')
                    return 'r_binom(%s, %s)' % (self.as_ty(args[0], 'u32'), self.as_ty(args[1], 'u32'))
                if name == 'to_string':
                    return 'str_of_u32(%s)' % self.as_ty(args[0], 'u32')
                if name in ('exit', 'abort', '_Exit'):
                    return 'return cexit()'
                if name == 'malloc' and len(args) == 1:
                    return 'ptr_alloc(%s)' % self.as_ty(args[0], 'usize')
                if name == 'free' and len(args) == 1:
                    return 'ptr_free(%s)' % self.ptr_ref(args[0], True)
                if name == 'make_tuple' and node_ty(n) == 'ptuple':
                    e = 'pt_nil()'
                    for a in args:
                        e = 'pt_add_i64(%s, %s)' % (e, self.as_ty(a, 'i64'))
                    return e
                if name == 'get_builtin' and node_ty(n) == 'pdtype':
                    if not re.search(r'<\s*double\s*>$', self.src(c)):
                        raise Unsupported('dtype other than double')
                    return 'pd_double()'
                if name == 'zeros' and node_ty(n) == 'ndarray' and len(args) == 2:
                    return 'nd_zeros(%s, %s)' % (self.ex(args[0]), self.ex(args[1]))
                if name == 'from_data' and node_ty(n) == 'ndarray' and len(args) == 5:
                    return 'nd_from_data(%s, %s, %s, %s, %s)' % (self.ptr_ref(args[0]), self.ex(args[1]), self.ex(args[2]), self.ex(args[3]), self.ex(args[4]))
                if name == 'move' and len(args) == 1:
                    return self.ex(args[0])
                if name in ('max', 'min') and len(args) == 2 and node_ty(args[0]) in INTS:
                    return '%s_%s(%s, %s)' % (name, node_ty(args[0]), self.ex(args[0]), self.ex(args[1]))
                raise Unsupported('call to ' + name)
            return self.call_fn(f, args)
        if c['kind'] == 'DeclRefExpr' and node_ty(c) == 'fnptr':
            tags = self.fnptr.get(c['referencedDecl']['id'])
            if not tags:
                raise Unsupported('function pointer call')
            v = self.lookup(c['referencedDecl']['id'])
            txt = ''
            for i, f in enumerate(tags):
                call = self.call_fn(f, args)
                if i < len(tags) - 1:
                    txt += 'if %s == %du32 { %s } else ' % (v, i, call)
                else:
                    txt += '{ %s }' % call
            return '(%s)' % txt if len(tags) > 1 else call
        if c['kind'] == 'DeclRefExpr' and node_ty(c) == 'sfunc' and len(args) == 1:
            return 'sfunc_call(&%s, %s)' % (self.lookup(c['referencedDecl']['id']), self.ptr_ref(args[0]))
        raise Unsupported('indirect call')

    def strip_int(self, n):
        """u32 text of an integer argument that is only widened for a math call"""
        s = self.strip(n)
        while s['kind'] == 'ImplicitCastExpr' and s['castKind'] in ('IntegralToFloating', 'IntegralCast', 'LValueToRValue', 'NoOp'):
            s = self.strip(inner(s)[0])
        t = node_ty(s)
        if t == 'u32':
            return self.ex(s)
        if t in INTS:
            return self.conv(self.ex(s), t, 'u32') if t != 'i32' else None
        return None

    def call_fn(self, f, args):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        how = self.env.callee(f, self)
        if how[0] == 'inline':
            return self.inline_call(f, args)
        return '%s(%s)' % (how[1], ', '.join(self.arg_list(self.param_types(f), args)))

    def inline_call(self, f, args):
        if self.inline_depth > 3:
            raise Unsupported('inlining too deep')
        if f.body is None:
            raise Unsupported('call to %s without a body' % f.qname)
        sub = Translator(f, self.env, None, self.generic)
        sub.inline_depth = self.inline_depth + 1
        sub.tmp = self.tmp + 100 * (self.inline_depth + 1)
        sub.self_name = self.self_name
        pre = []
        for p, a in zip(f.params, args):
            q = p['type']['qualType']
            t = node_ty(p)
            self.tmp += 1
            nm = '__i%d_%s' % (self.tmp, p['name'])
            if is_ref(q) and not (is_const_ref(q) and self.is_copy_ty(t)):
                s = self.strip_l(a)
                if s['kind'] not in ('DeclRefExpr', 'MemberExpr', 'CXXOperatorCallExpr'):
                    v = self.ex(a)
                    pre.append('let %s = %s;' % (nm, v))
                    sub.scopes[0][p['id']] = nm
                else:
                    sub.scopes[0][p['id']] = self.place(a)
            else:
                v = self.pass_arg(q, a)
                mut = 'mut ' if sub.assigned(p['id']) else ''
                pre.append('let %s%s: %s = %s;' % (mut, nm, rust_ty(t), v))
                sub.scopes[0][p['id']] = nm
        sub.fnptr = self.fnptr
        sub.throws = self.throws or (self.sc and self.sc.maythrow)
        body = inner(f.body)
        txt = sub.inline_body(body)
        self.tmp = max(self.tmp, sub.tmp)
        return '{ %s %s }' % (' '.join(pre), txt)

    def inline_body(self, stmts):
        """Statements ending in (possibly nested) return -> expression text."""
        if not stmts:
            return '()'
        out = []
        for i, s in enumerate(stmts):
            last = stmts[i + 1:]
            if s['kind'] == 'ReturnStmt':
                e = inner(s)
                return ' '.join(out) + ' ' + (self.ret_value(e[0]) if e else '()')
            if s['kind'] == 'IfStmt' and self.contains_return(s):
                parts = inner(s)
                c, th = parts[0], parts[1]
                el = parts[2] if len(parts) > 2 else None
                a = self.inline_body(self.as_list(th) + last)
                b = self.inline_body((self.as_list(el) if el else []) + last)
                return ' '.join(out) + ' (if %s { %s } else { %s })' % (self.ex(c), a, b)
            if self.contains_return(s):
                raise Unsupported('early return in an inlined loop')
            out.extend(self.stmt(s))
        return ' '.join(out) + ' ()'

    def as_list(self, s):
        return inner(s) if s['kind'] == 'CompoundStmt' else [s]

    def contains_return(self, s):
        if s.get('kind') == 'ReturnStmt':
            return True
        if s.get('kind') == 'LambdaExpr':
            return False
        return any(self.contains_return(c) for c in inner(s) if isinstance(c, dict))

    def assigned(self, id_):
        def w(n):
            k = n.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and (k == 'CompoundAssignOperator' or n['opcode'] == '='):
                s = self.strip_l(inner(n)[0])
                if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] == id_:
                    return True
            if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
                s = self.strip_l(inner(n)[0])
                if s['kind'] == 'DeclRefExpr' and s['referencedDecl']['id'] == id_:
                    return True
            return any(w(c) for c in inner(n) if isinstance(c, dict) and c)
        return w(self.fn.body)

    def ret_value(self, n):
        t = node_ty(n)
        if self.is_copy_ty(t):
            return self.ex(n)
        s = self.strip(n)
        if s['kind'] == 'CXXConstructExpr' and len(inner(s)) == 1:
            s2 = self.strip(inner(s)[0])
            if s2['kind'] == 'DeclRefExpr' and node_ty(s2) == t:
                s = s2
        if s['kind'] == 'DeclRefExpr':
            rd = s['referencedDecl']
            if rd['kind'] == 'ParmVarDecl':
                return self.clone(self.lookup(rd['id']), t)
            return self.x_DeclRefExpr(s)
        if s['kind'] == 'MemberExpr':
            return self.clone(self.place(s), t)
        return self.ex(n)

    def x_CXXMemberCallExpr(self, n):
        me = self.strip(inner(n)[0])
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call')
        args = [a for a in inner(n)[1:] if a['kind'] != 'CXXDefaultArgExpr']
        name = me['name']
        obj = inner(me)[0]
        t = node_ty(obj)
        if isinstance(t, tuple) and t[0] == 'ptr':
            t = t[1]
        so = self.strip_l(obj)
        o = self.self_name if so['kind'] == 'CXXThisExpr' else None
        if name == 'operator bool' and t == ('?', 'std::_Bit_reference') and not args:
            return self.place(obj)      # element of a std::vector<bool>
        if isinstance(t, tuple) and t[0] == 'vec':
            p = self.place(obj)
            if name == 'size':
                return '%s.len()' % p
            if name == 'push_back':
                v = self.ex(args[0]) if self.is_rvalue(args[0]) or self.is_copy_ty(t[1]) else self.clone(self.place(args[0]), t[1])
                f = self.push_fn(t)
                return '%s(%s%s, %s)' % (f, '&mut *' if p in self.deref_params else '&mut ', p, v)
            if name == 'resize' and len(args) == 1:
                f = {'u32': 'vec_resize_u32', 'f64': 'vec_resize_r'}.get(t[1])
                if f:
                    return '%s(%s%s, %s)' % (f, '&mut *' if p in self.deref_params else '&mut ', p, self.ex(args[0]))
            if name == 'at':
                return '%s[%s]' % (p, self.idx(args[0]))
            if name == 'empty':
                return '(%s.len() == 0)' % p
            if name == 'back':
                return '%s[%s.len() - 1]' % (p, p)
            if name == 'front':
                return '%s[0]' % p
            if name in ('reserve', 'shrink_to_fit'):
                return '()'
            if name == 'data' and t[1] == 'f64' and not args:
                return 'vec_data(&%s)' % p
            if name == 'clear':
                return '%s%s = Vec::new()' % ('*' if p in self.deref_params else '', p)
            raise Unsupported('vector::' + name)
        if t == 'ht':
            p = self.place(obj)
            if name == 'at':
                return 'ht_at(&%s, &%s)' % (p, self.str_arg(args[0]))
            if name == 'count':
                return 'ht_count(&%s, &%s)' % (p, self.str_arg(args[0]))
            if name == 'insert':
                s = self.strip(args[0])
                while s['kind'] in ('CXXConstructExpr', 'CXXFunctionalCastExpr', 'CXXTemporaryObjectExpr', 'ImplicitCastExpr') and len(inner(s)) == 1:
                    s = self.strip(inner(s)[0])
                if s['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(inner(s)) == 2:
                    a, b = inner(s)
                elif s['kind'] == 'CallExpr' and self.strip(inner(s)[0])['referencedDecl']['name'] == 'make_pair':
                    a, b = inner(s)[1:]
                else:
                    raise Unsupported('hash table insert')
                return 'ht_insert(&mut %s, &%s, %s)' % (p, self.str_arg(a), self.ex(b))
            if name == 'emplace' and len(args) == 2:
                return 'ht_insert(&mut %s, &%s, %s)' % (p, self.str_arg(args[0]), self.ex(args[1]))
            raise Unsupported('unordered_map::' + name)
        if t == 'str' and name in ('size', 'length'):
            return 'str_len(&%s)' % self.place(obj)
        if t in ('spmat', 'bmat') and name in ('size1', 'size2', 'nnz'):
            return '%s_%s(&%s)' % ({'spmat': 'sp', 'bmat': 'bm'}[t], name, self.place(obj))
        if t == 'ndarray' and name == 'copy' and not args:
            return 'nd_copy(&%s)' % self.place(obj)
        if t == 'cmat' and name in ('shape', 'strides', 'data') and not args or t == 'cmat' and name == 'num_elements':
            return 'cm_%s(&%s)' % (name, self.place(obj))
        if name == 'begin' and not args and self.strip(obj)['kind'] == 'CXXMemberCallExpr':
            me2 = self.strip(inner(self.strip(obj))[0])
            if me2['kind'] == 'MemberExpr' and me2['name'] == 'data' and node_ty(inner(me2)[0]) == 'bmat':
                return 'bm_data(&%s)' % self.place(inner(me2)[0])
        if t == 'ndarray' and name in ('get_nd', 'get_shape', 'get_strides', 'get_data'):
            return 'nd_%s(&%s)' % (name, self.place(obj))
        if t in ('miter', 'grid', 'viter') or (isinstance(t, tuple) and t[0] in ('iter', 'box')):
            f = self.env.resolve(me.get('referencedMemberDecl'))
            o = o or self.place(obj)
            return self.method(t, name, f, o, args)
        if t in ('spit2', 'bmit2', 'spit1', 'bmit1') and name in ('index1', 'index2'):
            return self.sp_iter_member(obj, name)
        raise Unsupported('method %s on %r' % (name, t))

    def push_fn(self, t):
        et = t[1]
        if et == ('vec', 'u32'):
            return 'push_u1'
        if et in ('u32', 'f64', 'bool'):
            return {'u32': 'push_u', 'f64': 'push_r', 'bool': 'push_b'}[et]
        if isinstance(et, tuple) and et[0] == 'iter':
            return 'push_miter'
        if et == ('vec', 'f64'):
            return 'push_r1'
        raise Unsupported('push_back on %r' % (t,))

    def method(self, t, name, f, o, args):
        if f is None:
            raise Unsupported('method ' + name)
        cls = f.cls
        is_static = f.node.get('storageClass') == 'static'
        if is_static:
            return self.call_fn(f, args)
        const = f.type.strip().endswith('const')
        if f.body and len(inner(f.body)) == 1 and inner(f.body)[0]['kind'] == 'ReturnStmt' and not args:
            b = self.strip(inner(inner(f.body)[0])[0])
            if b['kind'] == 'MemberExpr' and self.strip_l(inner(b)[0])['kind'] == 'CXXThisExpr' and \
                    (const or f.name == 'getList'):
                return '%s.%s' % (o, rname(b['name']))
        how = self.env.callee(f, self)
        ref = '&' if (const or how[2] == 'const') else '&mut '
        if o == self.self_name and not self.is_ctor:
            ref = '&mut *' if ref == '&mut ' else '&*'
            if self.this_const and ref == '&mut *':
                raise Unsupported('mutation of const this')
        al = self.arg_list(self.param_types(f), args)
        if how[0] == 'inline':
            raise Unsupported('call to uncontracted method ' + f.qname)
        return '%s(%s)' % (how[1], ', '.join([ref + o] + al))

    this_const = False

    # ---- sparse iterators (loop variables of a recognised traversal)
    def sp_iter_member(self, n, what):
        s = self.strip(n)
        if s['kind'] == 'DeclRefExpr':
            nm = self.lookup(s['referencedDecl']['id'])
            if nm and nm.startswith('@sp2:'):
                _, m, pos, kind = nm.split(':')
                return '%s_nz_%s(&%s, %s)' % (kind, what, m, pos)
            if nm and nm.startswith('@sp1:') and what == 'index1':
                _, m, row, kind = nm.split(':')
                return 'usize_id(%s)' % row
        raise Unsupported('sparse iterator use')

    def x_LambdaExpr(self, n):
        """lambda with a single return -> closure with the sidecar's contract"""
        body = inner(n)[-1]
        rec = inner(n)[0]
        meth = None
        for c in inner(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                meth = c
        if meth is None:
            raise Unsupported('lambda')
        ps = [p for p in inner(meth) if p['kind'] == 'ParmVarDecl']
        k = self.closures
        self.closures += 1
        self.scopes.append({})
        names = []
        for i, p in enumerate(ps):
            nm = 'cl%d_%d' % (k, i)
            self.scopes[-1][p['id']] = nm
            names.append('%s: %s' % (nm, rust_ty(node_ty(p))))
        st = inner(body)
        if len(st) != 1 or st[0]['kind'] != 'ReturnStmt':
            raise Unsupported('lambda body')
        e = self.ex(inner(st[0])[0])
        self.scopes.pop()
        spec = '\n'.join(self.hint('closure%d' % k))
        rt = rust_ty(norm(meth['type']['qualType'].split('(')[0]))
        return '|%s| -> (cr: %s) %s { %s }' % (', '.join(names), rt, spec, e)

    def x_CXXThrowExpr(self, n):
        return self.throw()

    def throw(self):
        if self.sc and self.sc.maythrow or self.throws:
            return '{ proof { assert(%s); } return cthrow(); }' % ' '.join(self.throws or self.sc.maythrow)
        return 'return cexit()'
    throws = None

    def ptr_ref(self, n, mut=False):
        """a double* as a reference to the buffer it points into"""
        s = self.strip_l(n)
        while s['kind'] == 'ImplicitCastExpr' and s.get('castKind') == 'BitCast':
            s = self.strip_l(inner(s)[0])
        if s['kind'] != 'DeclRefExpr':
            if mut:
                raise Unsupported('store through a computed pointer')
            return '&' + self.ex(n)
        if mut and s['referencedDecl']['id'] in self.readonly:
            raise Unsupported('store through a pointer that may alias')
        p = self.lookup(s['referencedDecl']['id'])
        return ('&mut *' if mut else '&*') + p if p in self.deref_params else ('&mut ' if mut else '&') + p

    def ptr_store(self, lhs, v):
        s = self.strip_l(lhs)
        a, b = inner(s)
        return '{ let __v = %s; ptr_set(%s, %s, __v); }' % (v, self.ptr_ref(a, True), self.as_ty(b, 'i64'))

    def is_ptr_cell(self, n):
        s = self.strip_l(n)
        return s['kind'] == 'ArraySubscriptExpr' and node_ty(inner(s)[0]) == ('ptr', 'f64')

    def x_ArraySubscriptExpr(self, n):
        a, b = inner(n)
        t = node_ty(a)
        if t == ('ptr', 'f64'):
            return 'ptr_get(%s, %s)' % (self.ptr_ref(a), self.as_ty(b, 'i64'))
        if t == ('ptr', 'i64'):
            return 'ptri_get(&%s, %s)' % (self.ex(a), self.as_ty(b, 'usize'))
        if t == ('ptr', 'usize'):
            return 'ptrz_get(&%s, %s)' % (self.ex(a), self.as_ty(b, 'usize'))
        raise Unsupported('array subscript on %r' % (t,))

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof' and norm(n.get('argType', {}).get('qualType', '')) == 'f64':
            return '8usize'
        raise Unsupported('sizeof')

    def x_CXXReinterpretCastExpr(self, n):
        return self.ex(inner(n)[0])

    def x_InitListExpr(self, n):
        raise Unsupported('initializer list')

    # ------------------------------------------------------------------ statements
    def stmts(self, lst):
        out = []
        for s in lst:
            out += self.stmt(s)
        return out

    def block(self, s):
        """Statement as list of lines inside a new scope"""
        self.scopes.append({})
        r = self.stmts(inner(s)) if s['kind'] == 'CompoundStmt' else self.stmt(s)
        self.scopes.pop()
        return r

    def is_stream(self, n):
        n = self.strip(n)
        return n['kind'] == 'CXXOperatorCallExpr' and self.opname(n) == 'operator<<' and 'ostream' in n['type'].get('qualType', '')

    def is_trivial(self, s):
        """statements that do nothing"""
        k = s['kind']
        if k == 'NullStmt':
            return True
        if k == 'CompoundStmt':
            return all(self.is_trivial(c) for c in inner(s))
        if k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr'):
            if s.get('castKind') == 'ToVoid' or k in ('ParenExpr', 'ExprWithCleanups'):
                return self.pure(inner(s)[0])
        if k in ('IntegerLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr'):
            return True
        if k == 'DoStmt':
            b, c = inner(s)
            return self.is_trivial(b) and self.const_false(c)
        if k == 'WhileStmt':
            return self.const_false(inner(s)[0])
        if k == 'IfStmt':
            p = inner(s)
            if self.const_false(p[0]) and len(p) == 2:
                return True
            return self.pure(p[0]) and all(self.is_trivial(x) for x in p[1:])
        if k == 'ForStmt':
            p = inner(s)
            return p[2] and self.const_false(p[2]) and (not p[0] or self.is_trivial(p[0]))
        return False

    def const_false(self, n):
        n = self.strip(n)
        while n['kind'] == 'ImplicitCastExpr':
            n = self.strip(inner(n)[0])
        return n['kind'] == 'CXXBoolLiteralExpr' and not n['value'] or n['kind'] == 'IntegerLiteral' and n['value'] == '0'

    def pure(self, n):
        k = n['kind']
        if k in ('IntegerLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr', 'FloatingLiteral', 'StringLiteral', 'CXXThisExpr', 'MemberExpr'):
            return all(self.pure(c) for c in inner(n))
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'ConditionalOperator', 'CXXFunctionalCastExpr'):
            return all(self.pure(c) for c in inner(n))
        if k == 'BinaryOperator' and n['opcode'] not in ('=', '/', '%'):
            return all(self.pure(c) for c in inner(n))
        if k == 'UnaryOperator' and n['opcode'] in ('!', '-', '+'):
            return all(self.pure(c) for c in inner(n))
        if k == 'CXXMemberCallExpr':
            me = self.strip(inner(n)[0])
            return me['kind'] == 'MemberExpr' and me['name'] in ('size', 'get', 'isFull') and all(self.pure(c) for c in inner(me)) and len(inner(n)) == 1
        return False

    def stmt(self, s):
        if self.is_trivial(s):
            return []
        k = s['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s)
        # expression statement
        e = s
        while e['kind'] in ('ExprWithCleanups', 'ParenExpr') or e['kind'] in ('CStyleCastExpr', 'CXXStaticCastExpr') and e.get('castKind') == 'ToVoid':
            e = inner(e)[0]
        if self.is_stream(e):
            return []
        if e['kind'] == 'BinaryOperator' and e['opcode'] == ',':
            a, b = inner(e)
            return self.stmt(a) + self.stmt(b)
        if e['kind'] == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            c = inner(e)[0]
            p, t = self.place(c), node_ty(c)
            v = self.arith('+' if e['opcode'] == '++' else '-', t, p, '1' + t)
            if '[' in p:
                return ['{ let __v = %s; %s = __v; }' % (v, p)]
            return ['%s = %s;' % (p, v)]
        if e['kind'] == 'CompoundAssignOperator' or e['kind'] == 'BinaryOperator' and e['opcode'] == '=':
            la = self.strip_l(inner(e)[0])
            if la['kind'] == 'CXXOperatorCallExpr' and self.opname(la) == 'operator()':
                if e['kind'] == 'CompoundAssignOperator':
                    raise Unsupported('compound element store')
                return [self.mat_set(la, inner(e)[1])]
        t = self.ex(e)
        return [t + (';' if not t.endswith('}') else ';')]

    def s_CompoundStmt(self, s):
        return ['{'] + self.block(s) + ['}']

    def s_NullStmt(self, s):
        return []

    def s_DeclStmt(self, s):
        out = []
        for d in inner(s):
            if d['kind'] in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl'):
                continue
            if d['kind'] != 'VarDecl':
                raise Unsupported('declaration ' + d['kind'])
            out += self.vardecl(d)
        return out

    def vardecl(self, d):
        t = node_ty(d)
        init = [c for c in inner(d) if c['kind'] not in ('FullComment',) and 'Attr' not in c['kind']]
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        q = d['type']['qualType']
        if is_ref(q):
            s = self.strip_l(init[0])
            if s['kind'] in ('DeclRefExpr', 'MemberExpr') or (is_const_ref(q) or t[0] == 'vec' if isinstance(t, tuple) else False) and False:
                self.scopes[-1][d['id']] = self.place(init[0])
                return []
            if is_const_ref(q) or not q.strip().endswith('&'):
                v = self.ex(init[0]) if self.is_rvalue(init[0]) else self.clone(self.place(init[0]), t)
                nm = self.declare(d)
                self.decls.append((nm, t))
                return ['let mut %s: %s = %s;' % (nm, rust_ty(t), v)]
            raise Unsupported('reference local')
        # the initializer is evaluated before the name is in scope
        if not init:
            nm = None
            if t in INTS:
                v = 'havoc_%s()' % t
            elif t == 'bool':
                v = 'havoc_bool()'
            elif t == 'f64':
                v = 'havoc_r()'
            else:
                raise Unsupported('uninitialised %r' % (t,))
        else:
            e = init[0]
            if t == 'fnptr':
                v = self.fnptr_val(d['id'], e)
            elif t == 'closure':
                v = self.ex(self.strip(e))
            elif self.is_copy_ty(t):
                v = self.ex(e)
                if t == ('ptr', 'f64') and not v.startswith('ptr_alloc('):
                    self.readonly.add(d['id'])
            else:
                v = self.init_value(t, e)
        nm = self.declare(d)
        self.decls.append((nm, t))
        if t == 'closure':
            return ['let %s = %s;' % (nm, v)] + self.hint('decl.' + nm)
        return ['let mut %s: %s = %s;' % (nm, rust_ty(t), v)] + self.hint('decl.' + nm)

    def init_value(self, t, e):
        s = self.strip(e)
        if s['kind'] in ('DeclRefExpr', 'MemberExpr') or s['kind'] == 'CXXOperatorCallExpr' and s.get('valueCategory') == 'lvalue' or \
                s['kind'] == 'CXXMemberCallExpr' and s.get('valueCategory') == 'lvalue':
            return self.clone(self.place(s), t)
        if s['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.x_CXXConstructExpr(s)
        return self.ex(s)

    def s_IfStmt(self, s):
        parts = inner(s)
        if s.get('hasInit') or s.get('hasVar'):
            raise Unsupported('if with initialiser')
        i = self.nif
        self.nif += 1
        c = self.ex(parts[0])
        out = ['if %s {' % c]
        out += self.hint('if%d.then' % i)
        out += self.block(parts[1])
        out += self.hint('if%d.then.end' % i)
        el = parts[2] if len(parts) > 2 else None
        h = self.hint('if%d.else' % i)
        if el is not None or h:
            out.append('} else {')
            out += h
            if el is not None:
                out += self.block(el)
            out += self.hint('if%d.else.end' % i)
        out.append('}')
        out += self.hint('if%d.after' % i)
        return out

    def loop_spec(self, k):
        self.anchors.add('loop%d' % k)
        if self.sc is None or self.inline_depth:
            return []
        return self.sc.loops.get(k, [])

    def loop_body(self, body, step_nodes, k, extra_pre=()):
        self.scopes.append({})
        self.steps.append(step_nodes)
        out = list(extra_pre)
        out += self.hint('loop%d.begin' % k)
        out += self.stmts(inner(body)) if body['kind'] == 'CompoundStmt' else self.stmt(body)
        out += self.hint('loop%d.end' % k)
        self.steps.pop()
        self.scopes.pop()
        return out

    def side_effects(self, n):
        k = n.get('kind')
        if k in ('CompoundAssignOperator',) or k == 'BinaryOperator' and n['opcode'] == '=':
            return True
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return True
        if k == 'CallExpr':
            c = self.strip(inner(n)[0])
            if c['kind'] == 'DeclRefExpr':
                f = self.env.resolve(c['referencedDecl']['id'])
                if f is not None and any(is_ref(q) and not is_const_ref(q) for q in self.param_types(f)):
                    return True
        return any(self.side_effects(c) for c in inner(n) if isinstance(c, dict) and c)

    def loop_text(self, k, cond, body_lines, step_lines):
        spec = self.loop_spec(k)
        if cond is None or cond == 'true':
            head = ['loop'] + spec + ['{']
        elif cond[0] == '!':
            head = ['loop'] + spec + ['{', 'if !(%s) { %s break; }' % (cond[1:], ' '.join(self.hint('loop%d.break' % k)))]
        else:
            head = ['while %s' % cond] + spec + ['{']
        return head + body_lines + step_lines + ['}'] + self.hint('loop%d.after' % k)

    def s_ForStmt(self, s):
        init, _, cond, inc, body = inner(s)
        sp = self.sparse_for(s)
        if sp is not None:
            return sp
        self.scopes.append({})
        out = ['{']
        k = self.nloops
        self.nloops += 1
        if init:
            out += self.stmt(init)
        out += self.hint('loop%d.before' % k)
        c = None
        if cond:
            c = self.ex(cond)
            if self.side_effects(cond):
                c = '!' + c
        step = [inc] if inc else []
        b = self.loop_body(body, (step, k), k)
        st = []
        for x in step:
            st += self.stmt(x)
        st += self.hint('loop%d.step' % k)
        out += self.loop_text(k, c, b, st)
        out.append('}')
        self.scopes.pop()
        return out

    def s_WhileStmt(self, s):
        parts = inner(s)
        cond, body = parts[0], parts[-1]
        k = self.nloops
        self.nloops += 1
        out = self.hint('loop%d.before' % k)
        c = self.ex(cond)
        if self.side_effects(cond):
            c = '!' + c
        b = self.loop_body(body, ([], k), k)
        return out + self.loop_text(k, c, b, [])

    def s_DoStmt(self, s):
        body, cond = inner(s)
        k = self.nloops
        self.nloops += 1
        out = self.hint('loop%d.before' % k)
        b = self.loop_body(body, ('do', k), k)
        c = self.ex(cond)
        b += ['if !(%s) {' % c] + self.hint('loop%d.break' % k) + ['break; }']
        b += self.hint('loop%d.step' % k)
        return out + self.loop_text(k, None, b, [])

    def s_CXXForRangeStmt(self, s):
        parts = inner(s)
        rng = next(p for p in parts if p and p['kind'] == 'DeclStmt' and inner(p)[0].get('name', '').startswith('__range'))
        var = [p for p in parts if p and p['kind'] == 'DeclStmt'][-1]
        body = parts[-1]
        r = self.place(inner(inner(rng)[0])[0])
        rt = node_ty(inner(inner(rng)[0])[0])
        if not (isinstance(rt, tuple) and rt[0] == 'vec'):
            raise Unsupported('range for over %r' % (rt,))
        k = self.nloops
        self.nloops += 1
        it = 'idx%d' % k
        v = inner(var)[0]
        vt = node_ty(v)
        self.scopes.append({})
        nm = self.declare(v)
        q = v['type']['qualType']
        if is_ref(q) and not is_const_ref(q):
            raise Unsupported('range for by reference')
        val = '%s[%s]' % (r, it)
        if not self.is_copy_ty(vt):
            val = self.clone(val, vt)
        pre = ['let mut %s: %s = %s;' % (nm, rust_ty(vt), val)]
        out = ['{', 'let mut %s: usize = 0;' % it] + self.hint('loop%d.before' % k)
        b = self.loop_body(body, ('range', it, k), k, pre)
        out += self.loop_text(k, '%s < %s.len()' % (it, r), b, ['%s = %s + 1;' % (it, it)] + self.hint('loop%d.step' % k))
        out.append('}')
        self.scopes.pop()
        return out

    def s_ContinueStmt(self, s):
        st = self.steps[-1]
        out = []
        if st[0] == 'do':
            raise Unsupported('continue in do-while')
        if st[0] == 'range':
            out += self.hint('loop%d.end' % st[2])
            out.append('%s = %s + 1;' % (st[1], st[1]))
            out += self.hint('loop%d.step' % st[2])
        elif st[0] == 'sp':
            out += self.hint('loop%d.end' % st[2])
            out.append(st[1])
            out += self.hint('loop%d.step' % st[2])
        else:
            out += self.hint('loop%d.end' % st[1])
            for x in st[0]:
                out += self.stmt(x)
            out += self.hint('loop%d.step' % st[1])
        return out + ['continue;']

    def s_BreakStmt(self, s):
        st = self.steps[-1]
        k = st[-1]
        return self.hint('loop%d.brk' % k) + ['break;']

    def s_ReturnStmt(self, s):
        i = self.nret
        self.nret += 1
        if self.inline_depth:
            raise Unsupported('return in inlined body')
        e = inner(s)
        if not e:
            return self.hint('return%d' % i) + self.hint('returns') + ['return;']
        v = self.ret_value(e[0])
        h = self.hint('return%d' % i) + self.hint('returns')
        rn = self.sc.ret if self.sc else 'r'
        pre = self.hint('return%d.pre' % i) + self.hint('returns.pre')
        if h:
            return pre + ['let %s = %s;' % (rn, v)] + h + ['return %s;' % rn]
        return pre + ['return %s;' % v]

    def s_CXXThrowExpr(self, s):
        return [self.throw() + ';']

    # traversal of a sparse / dense ublas matrix: two nested iterator loops
    def sparse_for(self, s):
        init, _, cond, inc, body = inner(s)
        if not init or init['kind'] != 'DeclStmt':
            return None
        ds = [d for d in inner(init) if d['kind'] == 'VarDecl']
        if len(ds) != 1:
            return None
        d = ds[0]
        t = node_ty(d)
        t2 = norm(d['type'].get('qualType', ''))
        if t not in ('spit1', 'spit2', 'bmit1', 'bmit2') and t2 in ('spit1', 'spit2'):
            t = t2
        iv = [c for c in inner(d)]
        if not iv:
            return None
        call = self.strip(iv[0])
        while call['kind'] == 'CXXConstructExpr' and len(inner(call)) == 1:
            call = self.strip(inner(call)[0])
        if call['kind'] != 'CXXMemberCallExpr':
            return None
        me = self.strip(inner(call)[0])
        if me['kind'] != 'MemberExpr' or me['name'] not in ('begin1', 'begin'):
            return None
        obj = self.strip_l(inner(me)[0])
        level = 1 if me['name'] == 'begin1' else 2
        # condition: var != <same object>.end1()/end() ; increment: ++var
        c = self.strip(cond)
        if c['kind'] == 'CXXRewrittenBinaryOperator':
            c = self.strip(inner(c)[0])
        neg = False
        while c['kind'] == 'UnaryOperator' and c['opcode'] == '!':
            neg = not neg
            c = self.strip(inner(c)[0])
        if c['kind'] != 'CXXOperatorCallExpr':
            raise Unsupported('iterator loop condition')
        nm = self.opname(c)
        if not (nm == 'operator!=' and not neg or nm == 'operator==' and neg):
            raise Unsupported('iterator loop condition')
        a, b = [self.strip(x) for x in inner(c)[1:]]
        if a['kind'] == 'MaterializeTemporaryExpr':
            a = self.strip(inner(a)[0])
        if not (a['kind'] == 'DeclRefExpr' and a['referencedDecl']['id'] == d['id']):
            raise Unsupported('iterator loop condition')
        while b['kind'] == 'CXXConstructExpr' and len(inner(b)) == 1:
            b = self.strip(inner(b)[0])
        bm = self.strip(inner(b)[0]) if b['kind'] == 'CXXMemberCallExpr' else None
        if bm is None or bm.get('name') != {'begin1': 'end1', 'begin': 'end'}[me['name']]:
            raise Unsupported('iterator loop end')
        bobj = self.strip_l(inner(bm)[0])
        if self.obj_key(bobj) != self.obj_key(obj):
            raise Unsupported('iterator loop over different objects')
        i = self.strip(inc)
        if not (i['kind'] == 'CXXOperatorCallExpr' and self.opname(i) == 'operator++' and
                self.strip_l(inner(i)[1])['referencedDecl']['id'] == d['id']):
            raise Unsupported('iterator loop step')
        k = self.nloops
        self.nloops += 1
        self.scopes.append({})
        v = 'it%d' % k
        if level == 1:
            kind = {'spmat': 'sp', 'bmat': 'bm'}.get(node_ty(obj))
            if kind is None:
                raise Unsupported('iteration over %r' % (node_ty(obj),))
            m = self.place(obj)
            self.scopes[-1][d['id']] = '@sp1:%s:%s:%s' % (m, v, kind)
            lo, hi = '0usize', '%s_rows(&%s)' % (kind, m)
        else:
            nm = self.lookup(obj['referencedDecl']['id']) if obj['kind'] == 'DeclRefExpr' else None
            if not nm or not nm.startswith('@sp1:'):
                raise Unsupported('inner iterator loop')
            _, m, row, kind = nm.split(':')
            self.scopes[-1][d['id']] = '@sp2:%s:%s:%s' % (m, v, kind)
            lo, hi = '%s_row_start(&%s, %s)' % (kind, m, row), '%s_row_start(&%s, %s + 1)' % (kind, m, row)
        out = ['{', 'let mut %s: usize = %s;' % (v, lo)]
        end = 'end%d' % k
        out.append('let %s: usize = %s;' % (end, hi))
        out += self.hint('loop%d.before' % k)
        step = '%s = %s + 1;' % (v, v)
        bl = self.loop_body(body, ('sp', step, k), k)
        out += self.loop_text(k, '%s < %s' % (v, end), bl, [step] + self.hint('loop%d.step' % k))
        out.append('}')
        self.scopes.pop()
        return out

    def obj_key(self, n):
        if n['kind'] == 'DeclRefExpr':
            return n['referencedDecl']['id']
        if n['kind'] == 'MemberExpr':
            return ('m', n['name'], self.obj_key(self.strip_l(inner(n)[0])))
        if n['kind'] == 'CXXThisExpr':
            return 'this'
        return id(n)

    # ------------------------------------------------------------------ whole function
    def signature(self, stub=False):
        f, sc = self.fn, self.sc
        ps, pre = [], []
        names = sc.params if sc and sc.params else None
        if names and len(names) != len(f.params):
            raise Unsupported('parameter count of %s changed' % f.qname)
        is_method = f.cls and not self.is_ctor and f.node.get('storageClass') != 'static'
        if is_method:
            st = 'MIter'
            const = f.type.strip().endswith('const') or (sc and sc.const)
            self.this_const = const
            ps.append('this: %s%s' % ('&' if const else '&mut ', st))
        gen = ''
        for i, p in enumerate(f.params):
            q = p['type']['qualType']
            t = node_ty(p)
            nm = names[i] if names else rname(p.get('name', '_p%d' % i))
            self.scopes[0][p['id']] = nm
            if t == 'closure':
                gen = '<F: Fn(u32) -> u32>'
                ps.append('%s: F' % nm)
            elif t == 'sfunc':
                ps.append('%s: SFunc' % nm)
            elif t == ('ptr', 'f64'):
                ps.append('%s: &mut PtrF64' % nm)
                self.deref_params.add(nm)
            elif is_ref(q) and not (is_const_ref(q) and self.is_copy_ty(t)):
                ps.append('%s: &%s%s' % (nm, '' if is_const_ref(q) else 'mut ', rust_ty(t)))
                if not is_const_ref(q):
                    self.deref_params.add(nm)
            else:
                ps.append('%s: %s' % (nm, rust_ty(t)))
                if not stub and f.body and self.assigned(p['id']):
                    pre.append('let mut %s: %s = %s;' % (nm, rust_ty(t), nm))
        if sc and sc.extra_params:
            ps += sc.extra_params
        rt = 'MIter' if self.is_ctor else rust_ty(norm(f.type.split('(')[0]) if not has_unknown(norm(f.type.split('(')[0])) else self.ret_ty())
        return gen, ps, rt, pre

    def ret_ty(self):
        # result type from the desugared function type
        t = self.fn.node['type'].get('desugaredQualType', self.fn.type)
        return norm(t.split('(')[0])

    def text(self, rustname, stub=False):
        sc = self.sc
        gen, ps, rt, pre = self.signature(stub)
        lines = []
        if sc:
            lines += sc.attrs
        spec = []
        if sc:
            if sc.requires:
                spec += ['    requires'] + ['        ' + x for x in sc.requires]
            if sc.ensures:
                spec += ['    ensures'] + ['        ' + x for x in sc.ensures]
        if stub:
            lines = ['#[verifier::external_body]']
            lines.append('pub fn %s%s(%s) -> (%s: %s)' % (rustname, gen, ', '.join(ps), sc.ret if sc else 'r', rt))
            lines += spec
            lines.append('{ unimplemented!() }')
            return '\n'.join(lines)
        lines.append('#[verifier::exec_allows_no_decreases_clause]')
        lines.append('#[verifier::loop_isolation(false)]')
        lines.append('#[verifier::allow_complex_invariants]')
        lines.append('pub fn %s%s(%s) -> (%s: %s)' % (rustname, gen, ', '.join(ps), sc.ret if sc else 'r', rt))
        lines += spec
        lines.append('{')
        lines += pre
        if self.is_ctor:
            lines += self.ctor_prologue()
        lines += self.hint('entry')
        lines += self.stmts(inner(self.fn.body))
        lines += self.hint('end')
        if self.is_ctor:
            lines.append('this')
        lines.append('}')
        return '\n'.join(lines)

    def ctor_prologue(self):
        """member initialisers of the iterator classes: base first, then the members in order"""
        first = ['let mut this: MIter = miter_blank();']
        for c in self.fn.inits:
            if 'baseInit' in c:
                s = self.strip(inner(c)[0])
                args = [a for a in inner(s)]
                base = norm(c['baseInit']['qualType'])
                nm = {'miter': 'Multi_index_iterator', 'viter': 'Vector_iterator'}.get(base)
                if nm is None:
                    raise Unsupported('base initialiser')
                self.env.need(nm + '::' + nm)
                first = ['let mut this: MIter = %s__new(%s);' % (nm, ', '.join(self.ex(a) for a in args))]
        out = []
        for c in self.fn.inits:
            if 'anyInit' in c:
                e = inner(c)[0]
                s = self.strip(e)
                if s['kind'] == 'CXXDefaultInitExpr':
                    raise Unsupported('default member initialiser')
                if s['kind'] == 'CXXConstructExpr' and not [a for a in inner(s) if a['kind'] != 'CXXDefaultArgExpr']:
                    continue
                t = node_ty(e)
                v = self.ex(e) if self.is_copy_ty(t) else self.init_value(t, e)
                out.append('this.%s = %s;' % (rname(c['anyInit']['name']), v))
        return first + out
