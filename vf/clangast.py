"""Run clang on a translation unit of /repo and index the AST of namespace hermite."""
import json, os, subprocess, sys, sysconfig

REPO = os.environ.get('VF_REPO', '/repo')


class ExtractError(Exception):
    pass


def include_flags():
    fl = ['-I' + os.path.join(REPO, 'cpp/src')]
    inc = sysconfig.get_paths().get('include')
    if inc:
        fl.append('-I' + inc)
    try:
        inc2 = subprocess.run(['/usr/bin/python3', '-c',
                               'import sysconfig;print(sysconfig.get_paths()["include"])'],
                              capture_output=True, text=True).stdout.strip()
        if inc2:
            fl.append('-I' + inc2)
    except OSError:
        pass
    return fl


def dump(path, filt='hermite::', extra=()):
    """AST docs (list of dicts) of every declaration whose qualified name matches filt."""
    cmd = ['clang++', '-std=c++14', '-DNDEBUG', '-w', '-fsyntax-only', '-O2'] + include_flags() + list(extra) + \
          ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    docs, dec, s, i = [], json.JSONDecoder(), p.stdout, 0
    n = len(s)
    while i < n:
        while i < n and s[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        if s[i] != '{':  # "Dumping xxx:" header lines
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs


FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl')


def inner(n):
    return n.get('inner', []) or []


class Fn:
    def __init__(self, node, cls, targs):
        self.node, self.cls, self.targs = node, cls, targs
        self.name = node['name']
        self.type = node['type']['qualType']
        self.params = [p for p in inner(node) if p['kind'] == 'ParmVarDecl']
        self.body = next((b for b in inner(node) if b['kind'] in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in inner(node) if c['kind'] == 'CXXCtorInitializer']

    @property
    def qname(self):
        return (self.cls + '::' if self.cls else '') + self.name

    def __repr__(self):
        return '<%s%s %s%s>' % (self.qname, self.targs or '', self.type, '' if self.body else ' (decl)')


class Index:
    def __init__(self, docs):
        self.fns, self.byid, self.rec = [], {}, {}
        for d in docs:
            self._records(d)
        for d in docs:
            self._walk(d, None, False)
        # an id of a redeclaration resolves to the definition
        self.canon = {}
        for f in self.fns:
            root = self._root(f)
            if f.body:
                self.canon[root] = f
        self.defs = [f for f in self.fns if f.body]
        for f in self.fns:  # out-of-line definitions of static members carry no storage class
            r = self.byid.get(self._root(f))
            if r is not None and r.node.get('storageClass') == 'static':
                f.node['storageClass'] = 'static'

    def _root(self, f):
        n, seen = f.node, set()
        while n.get('previousDecl') and n['previousDecl'] not in seen:
            seen.add(n['previousDecl'])
            p = self.byid.get(n['previousDecl'])
            if p is None:
                return n['previousDecl']
            n = p.node
        return n['id']

    def resolve(self, id_):
        f = self.byid.get(id_)
        if f is None:
            return None
        return self.canon.get(self._root(f), f)

    def _records(self, n):
        if n.get('kind') == 'CXXRecordDecl':
            self.rec[n['id']] = n
            if n.get('previousDecl') and n.get('name'):
                self.rec.setdefault(n['previousDecl'], n)
        if n.get('kind') in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl'):
            for c in inner(n):
                self._records(c)

    def _targs(self, n):
        r = []
        for c in inner(n):
            if c['kind'] == 'TemplateArgument':
                t = c.get('type', {})
                r.append(t.get('desugaredQualType') or t.get('qualType') or str(c.get('value')))
        return r

    def _walk(self, n, cls, in_template):
        k = n.get('kind')
        if k in FN:
            ta = self._targs(n)
            if in_template and not ta:
                return  # uninstantiated pattern
            if n['id'] in self.byid:
                return
            if cls is None and n.get('parentDeclContextId') in self.rec:
                cls = self.rec[n['parentDeclContextId']].get('name')
            f = Fn(n, cls, ta)
            self.fns.append(f)
            self.byid[n['id']] = f
        elif k == 'FunctionTemplateDecl':
            for c in inner(n):
                self._walk(c, cls, True)
        elif k == 'CXXRecordDecl':
            for c in inner(n):
                self._walk(c, n.get('name'), False)
        elif k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for c in inner(n):
                self._walk(c, cls, False)


if __name__ == '__main__':
    for f in Index(dump(sys.argv[1])).defs:
        print(f)
