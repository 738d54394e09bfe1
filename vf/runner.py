"""Run Verus on a generated unit and digest what it says."""
import json, os, re, subprocess, time


class Result:
    pass


def run_verus(path, rlimit=None, timeout=600, extra=(), threads=None):
    cmd = ['verus', path, '--output-json', '--multiple-errors', '20', '--time', '--triggers-mode', 'silent']
    if rlimit:
        cmd += ['--rlimit', str(rlimit)]
    if threads:
        cmd += ['--num-threads', str(threads)]
    cmd += list(extra)
    t0 = time.time()
    r = Result()
    r.cmd = ' '.join(cmd)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(path), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        out, err, r.timeout = '', 'timeout', True
    finally:
        try:
            os.killpg(p.pid, 9)     # the solvers too
        except OSError:
            pass
    r.wall = time.time() - t0
    r.out, r.err = out, err
    r.verified = r.errors = 0
    r.smt_ms = 0
    r.ok = False
    r.vir_error = True
    try:
        j = json.loads(out)
        v = j.get('verification-results', {})
        r.verified, r.errors = v.get('verified', 0), v.get('errors', 0)
        r.ok = bool(v.get('success'))
        r.vir_error = bool(v.get('encountered-vir-error')) or 'verified' not in v
        tm = j.get('times-ms', {})
        r.smt_ms = (tm.get('smt', {}) or {}).get('total', 0) or 0
        r.json = j
    except ValueError:
        r.json = None
    return r


def parse_errors(r, text):
    """[(function, message, line)] from rustc-style diagnostics"""
    lines = text.split('\n')
    fn_at, cur = {}, None
    for i, l in enumerate(lines, 1):
        m = re.match(r'\s*(?:pub\s+)?(?:open\s+|closed\s+|broadcast\s+)*(?:proof\s+|spec\s+|exec\s+)?fn\s+(\w+)', l)
        if m:
            cur = m.group(1)
        fn_at[i] = cur
    out = []
    for blk in re.split(r'\n(?=error|warning)', r.err):
        m = re.match(r'error(?:\[\w+\])?: (.*)', blk)
        if not m:
            continue
        loc = re.search(r'--> [^\n]*?:(\d+):(\d+)', blk)
        line = int(loc.group(1)) if loc else 0
        out.append((fn_at.get(line), m.group(1), line, lines[line - 1].strip() if line else '', blk))
    return out
