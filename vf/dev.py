import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units, contracts, runner
def main():
    c = contracts.Contracts()
    os.makedirs('/tmp/v/out', exist_ok=True)
    for n in sys.argv[1:]:
        u = units.get(n)
        text, info = contracts.build_unit(u, c)
        p = '/tmp/v/out/%s.rs' % n.replace(':', '_')
        open(p, 'w').write(text)
        r = runner.run_verus(p, rlimit=u.rlimit, timeout=int(os.environ.get("TO","120")))
        print(n, 'ok' if r.ok else 'FAIL', r.verified, r.errors, '%.1fs' % r.wall, info['stubs'], info['inlined'])
        if not r.ok:
            print('\n'.join(r.err.split('\n')[:int(os.environ.get('TAIL', '90'))]))
main()
