"""Vacuity test: assert(false) planted at function entries, loop bodies, after loops and at exits must fail everywhere."""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, contracts, runner, cpp2rs, py2rs
F = 'proof { assert(false); /*VAC*/ }'


def run(name, which, outdir='/tmp/v/out'):
    u = units.get(name)
    orig = cpp2rs.Translator.hint

    def hint(self, a):
        h = orig(self, a)
        top = self.inline_depth == 0
        if top and (which == 'entry' and a == 'entry' or which == 'begin' and re.match(r'loop\d+\.end$', a) or a == which
                    or which == 'exit' and a == ('end' if self.fn.type.startswith('void') or self.is_ctor else 'returns')):
            return list(h) + [F]
        return h
    porig = py2rs.Tr.hint_block

    def phint(self, a):
        porig(self, a)
        if a == which or which == 'exit' and a == 'returns':
            self.emit(F)
    cpp2rs.Translator.hint = hint
    py2rs.Tr.hint_block = phint
    try:
        text, info = contracts.build_unit(u, contracts.Contracts())
    finally:
        cpp2rs.Translator.hint = orig
        py2rs.Tr.hint_block = porig
    os.makedirs(outdir, exist_ok=True)
    p = os.path.join(outdir, 'vac_%s_%s.rs' % (name, which.replace('.', '_')))
    open(p, 'w').write(text)
    n = text.count('/*VAC*/')
    r = runner.run_verus(p, rlimit=u.rlimit, timeout=900)
    if r.vir_error or not r.verified:
        print('   tool error:', r.err[:300])
    bad = set()
    for fn, msg, line, src, blk in runner.parse_errors(r, text):
        if 'VAC' in src or '/*VAC*/' in blk:
            bad.add(line)
    lines = text.split('\n')
    want = {i for i, l in enumerate(lines, 1) if '/*VAC*/' in l}
    return n, sorted(want - bad), p


if __name__ == '__main__':
    for nm in sys.argv[1:]:
        for w in ['entry', 'exit'] + ['loop%d.%s' % (k, e) for k in range(12) for e in ('end', 'after')]:
            n, miss, p = run(nm, w)
            if n == 0:
                break
            print(nm, w, n, 'planted;', 'ALL FAIL as they must' if not miss else 'PASSED (vacuous?): %s' % ', '.join('%s:%d' % (p, l) for l in miss))
