#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree.

Deciding step: the functions the property depends on are extracted mechanically from /repo (clang AST -> Verus), joined
with the contracts in /verif/contracts, and Verus must discharge every obligation.  Beside it, the same contracts are
evaluated on the compiled code over a bounded input space (`bounded/`): that is where a failing input for a failed
obligation comes from, and what stands in (labelled bounded) for a function that is out of the extractor's reach."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'vf'))
sys.dont_write_bytecode = True
import props as P           # noqa: E402
import units as U           # noqa: E402
import contracts as C       # noqa: E402
import runner as R          # noqa: E402
import build as B           # noqa: E402
from clangast import ExtractError, REPO   # noqa: E402

T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------------------------------------ deductive part
def prove_unit(name, scratch, cons, tier):
    """-> dict(unit, status in proved|failed|out_of_reach, ...)"""
    u = U.get(name)
    d = {'unit': name, 'status': 'out_of_reach', 'verified': 0, 'errors': 0, 'smt_ms': 0, 'wall_s': 0.0}
    try:
        text, info = C.build_unit(u, cons)
    except (C.Unsupported, ExtractError, KeyError, IndexError, AttributeError, TypeError, StopIteration, RecursionError) as e:
        d['reason'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        return d
    d.update(functions=[k for k, _, _ in info['proved']], instantiations={k: n for k, _, n in info['proved']},
             assumed_contracts=info['stubs'], inlined=info['inlined'])
    path = os.path.join(scratch, name.replace(':', '_') + '.rs')
    open(path, 'w').write(text)
    code = '\n'.join(l for l in text.split('\n') if not l.strip().startswith('//'))
    body = code[code.index('verus!{'):]
    d['unchecked'] = sorted(set(re.findall(r'\b(?:assume|admit)\s*\(', body)))
    base = u.rlimit or 20
    lemma_end = len(text[:text.index('/*UNIT-FUNCTIONS*/')].split('\n')) if '/*UNIT-FUNCTIONS*/' in text else 0
    # an obligation counts as failed only if it fails on every attempt (more resources, other solver seeds)
    for i, (rl, opt) in enumerate([(base, []), (4 * base, ['--smt-option', 'smt.random_seed=11']), (4 * base, ['--smt-option', 'smt.random_seed=97'])]):
        if i and d['wall_s'] > (200 if tier == 'quick' else 1500):
            break
        r = R.run_verus(path, rlimit=rl, timeout=240 if tier == 'quick' else 900, extra=opt)
        d.update(verified=r.verified, errors=r.errors, cmd=r.cmd)
        d['smt_ms'] += r.smt_ms
        d['wall_s'] += r.wall
        if r.timeout or (not r.ok and r.errors == 0):
            # rejected before any obligation was generated (dialect), or no verdict in time
            d['reason'] = 'Verus gives no verdict: ' + (r.err[-1500:] if not r.timeout else 'time-out')
            continue
        if r.ok:
            d['status'] = 'proved' if r.verified > 0 and not d['unchecked'] else 'out_of_reach'
            d.pop('reason', None)
            return d
        errs = [e for e in R.parse_errors(r, text) if e[0] or e[2]]
        d['obligations_failed'] = [{'function': e[0], 'obligation': e[1], 'at': e[3], 'line': e[2]} for e in errs]
        d['output'] = r.err[:6000]
        if r.vir_error or re.search(r'^error\[E\d+\]', r.err, re.M):
            d['reason'] = 'the extracted text is outside the Verus dialect: ' + r.err[:600]
            return d
        d['status'] = 'failed'
    if d['status'] == 'failed' and d.get('obligations_failed') and all(e['line'] < lemma_end for e in d['obligations_failed']):
        # the lemma library does not depend on /repo: solver instability, not a property of the code
        d['status'], d['reason'] = 'out_of_reach', 'the solver loses a lemma that does not depend on the code: %s' % d['obligations_failed'][0]['function']
    if d['status'] == 'failed' and d.get('obligations_failed') and all('rlimit' in o['obligation'].lower() or 'resource limit' in o['obligation'].lower() for o in d['obligations_failed']):
        d['status'], d['reason'] = 'out_of_reach', 'the solver gives no verdict within its resource limit'
    return d


# ------------------------------------------------------------------------------------------------ bounded part
def run_groups(exe, groups, level, seed, limit):
    out = []
    procs = []
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=9000:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
    for g in groups:
        procs.append((g, time.time(), subprocess.Popen(exe + [g, str(level), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)))
    for g, t0, p in procs:
        d = {'group': g, 'level': level, 'status': 'no_verdict', 'evaluations': 0, 'nontrivial': 0, 'samples': []}
        try:
            o, e = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, e = p.communicate()
            d['reason'] = 'time-out'
        d['wall_s'] = round(time.time() - t0, 2)
        for l in o.split('\n'):
            if l.startswith('FAIL '):
                d.update(status='fails', case=l[5:], stderr=e[-3000:])
            elif l.startswith('DONE '):
                w = l.split()
                d.update(status='holds', evaluations=int(w[1]), nontrivial=int(w[2]))
            elif l.startswith('SAMPLE '):
                d['samples'].append(l[7:])
        if d['status'] == 'no_verdict' and 'reason' not in d:
            d['reason'] = 'exit %s: %s' % (p.returncode, (e or o)[-800:])
        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    pr = P.PROPS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = a.tier == 'thorough'
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % a.prop)
    try:
        rc = decide(a.prop, pr, a.tier, thorough, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(pid, pr, tier, thorough, seed, scratch):
    cons = C.Contracts()
    findings = json.load(open(os.path.join(ROOT, 'findings', 'known.json')))
    known = [f for f in findings if f.get('status') == 'known' and f['property'] == pid]
    with cf.ThreadPoolExecutor(10) as ex:
        fb = ex.submit(B.build_cpp, scratch, pr.get('groups', [])) if pr.get('groups') else None
        fp = ex.submit(B.build_py, scratch) if pr.get('pygroups') else None
        # extraction is serialised per translation unit by the index cache; warm it first
        for tu in sorted({U.get(n).tu for n in pr['units'] if not isinstance(U.get(n), C.PyUnit)}):
            try:
                C.load_index(tu)
            except ExtractError as e:
                log('extraction of', tu, 'failed:', str(e)[:300])
        fu = [ex.submit(prove_unit, n, scratch, cons, tier) for n in pr['units']]
        proofs = [f.result() for f in fu]
        hb = fb.result() if fb else None
        pb = fp.result() if fp else None
    for d in proofs:
        log('unit %-14s %-12s %3d verified %d errors %.1fs %s' % (d['unit'], d['status'], d['verified'], d['errors'], d['wall_s'], d.get('reason', '')[:300]))
    failed = [d for d in proofs if d['status'] == 'failed']
    unreach = [d for d in proofs if d['status'] == 'out_of_reach']

    bounded, notes = [], []

    def explore(level, limit):
        r = []
        if pr.get('groups'):
            if hb and hb.ok:
                r += run_groups([hb.exe], pr['groups'], level, seed, limit)
            else:
                notes.append('the bounded C++ harness does not build: ' + (hb.err[-600:] if hb else ''))
        if pr.get('pygroups'):
            if pb and pb.ok:
                q = run_groups([sys.executable if not os.path.exists('/usr/bin/python3') else '/usr/bin/python3', '-B', os.path.join(ROOT, 'bounded', 'pyharness.py'), '--repo', REPO, '--lib', pb.libdir, '--known', os.path.join(ROOT, 'findings', 'known.json')], pr['pygroups'], level, seed, limit)
                for b in q:
                    b['group'] = 'python ' + b['group']
                r += q
            else:
                notes.append('the extension module does not build: ' + (pb.err[-600:] if pb else ''))
        return r

    level = 1 if thorough else 0
    bounded = explore(level, 400 if not thorough else 3000)
    if level == 0 and (failed or unreach) and not any(b['status'] == 'fails' for b in bounded):
        log('searching deeper for a failing input')
        bounded += explore(1, max(60, min(420, 800 - (time.time() - T0))))
    for b in bounded:
        log('bounded %-16s level %d %-10s %d evaluations %.1fs %s' % (b['group'], b['level'], b['status'], b['evaluations'], b['wall_s'], b.get('reason', b.get('case', ''))[:300]))
    fails = [b for b in bounded if b['status'] == 'fails']
    for b in bounded:
        for s in b['samples']:
            if s.startswith('KNOWN '):
                print('KNOWN-FINDING: property=%s %s' % (pid, s[6:]))
        b['samples'] = [s for s in b['samples'] if not s.startswith('KNOWN ')]

    rc, replay = 0, None
    if fails or failed:
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(ROOT, 'evidence', 'replay', pid + '.txt')
        with open(replay, 'w') as f:
            f.write('property %s: %s\n' % (pid, pr['title']))
            for b in fails:
                f.write('\nfailing input on the compiled code (%s):\n  %s\nreplay: VERIF_SEED=%d python3 /verif/check.py %s --tier %s   (group %s, level %d)\n%s\n' % (
                    b['group'], b['case'], seed, pid, tier, b['group'], b['level'], b.get('stderr', '')))
            for d in failed:
                f.write('\nobligations of unit %s that Verus does not discharge:\n' % d['unit'])
                for o in d.get('obligations_failed', []):
                    f.write('  in %s: %s   [%s]\n' % (o['function'], o['obligation'], o['at']))
                f.write('command: %s\n\nverifier output:\n%s\n' % (d.get('cmd'), d.get('output', '')))
        rc = 1
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, '' if fails else ' no-failing-input-found'), flush=True)

    # ------------------------------------------------------------------ evidence
    obl = sum(d['verified'] + d['errors'] for d in proofs)
    dis = sum(d['verified'] for d in proofs if d['status'] in ('proved', 'failed'))
    level_name = pr['level'] if (pr['units'] and not unreach) else ('exploration' if pr['level'] == 'proof' else pr['level'])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level_name, 'violations': len(fails) + len(failed),
          'assumptions': P.assumptions(pr, proofs), 'wall_s': round(time.time() - T0, 2)}
    cov = {'obligations': obl, 'discharged': dis, 'checker_cmd': (proofs[0].get('cmd', '') if proofs else ''), 'back_end': 'Verus 0.2026.09 / Z3',
           'solver_ms': sum(d['smt_ms'] for d in proofs), 'trusted_base': P.TRUSTED,
           'units': [{k: v for k, v in d.items() if k not in ('output', 'cmd')} for d in proofs],
           'functions_under_contract': sorted({f for d in proofs if d['status'] == 'proved' for f in d.get('functions', [])}),
           'bounded': {'label': 'bounded, not counted as proved', 'bound': pr.get('bound', ''), 'groups': [{k: v for k, v in b.items() if k != 'stderr'} for b in bounded], 'notes': notes},
           'evaluations': sum(b['evaluations'] for b in bounded), 'distinct_nontrivial': sum(b['nontrivial'] for b in bounded),
           'rule': pr.get('bound', 'inputs enumerated or drawn from the seed; non-trivial: dimension above 1 and more than one coefficient'),
           'samples': [s for b in bounded for s in b['samples']][:8]}
    if unreach:
        cov['not_proved_this_run'] = [{'unit': d['unit'], 'reason': d.get('reason', '')} for d in unreach]
    ev['coverage'] = cov
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    if rc == 0 and not proofs and not any(b['status'] == 'holds' for b in bounded):
        log('nothing was decided')
        return 2
    if rc == 0 and proofs and all(d['status'] != 'proved' for d in proofs) and not any(b['status'] == 'holds' for b in bounded):
        log('nothing was decided')
        return 2
    log('exit', rc)
    return rc


if __name__ == '__main__':
    main()
