"""Bounded contract check through the Python bindings of the compiled module: pyharness.py --lib DIR --known FILE GROUP LEVEL SEED"""
import argparse, mmap, shutil, tempfile, os, random, signal, sys
ap = argparse.ArgumentParser()
ap.add_argument('--repo', default='/repo'); ap.add_argument('--lib'); ap.add_argument('--known'); ap.add_argument('group'); ap.add_argument('level', type=int); ap.add_argument('seed', type=int)
A = ap.parse_args()
sys.path[:0] = [A.lib, A.repo]
sys.dont_write_bytecode = True
os.environ.update(MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
OUT = os.fdopen(os.dup(1), 'w')
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)    # the library prints its error messages
import numpy as np          # noqa: E402
import hermite_cpp as h     # noqa: E402

CASE, N, NT, SAMPLES = '', 0, 0, []
SHM = mmap.mmap(-1, 8192)       # the current case, for the parent to report if the library kills the process


def say(s):
    OUT.write(s + '\n')
    OUT.flush()


def begin(c, nontrivial=True):
    global CASE, N, NT
    CASE = c
    b = c.encode()[:4000]
    SHM[:4 + len(b)] = len(b).to_bytes(4, 'little') + b
    N += 1
    NT += bool(nontrivial)
    if len(SAMPLES) < 4 or N % 211 == 0 and len(SAMPLES) < 8:
        SAMPLES.append(c)


def fail(what):
    say('FAIL %s :: %s' % (CASE, what))
    os._exit(1)


CONV = ('to_mat', 'to_bmat', 'to_boost_mat')


def accepted(f, a, label):
    if a.strides[1] != 8:       # numpy is free to choose the stride of a dimension of length one
        return
    begin('%s(%s)' % (f, label))
    try:
        c = getattr(h, f)(a)
    except Exception as e:
        fail('rejected although the columns are contiguous: %r' % e)
    if a.shape[0] == 0 and f == 'to_mat':
        return
    b = h.to_numpy(c)
    if b.shape != a.shape or b.dtype != np.float64:
        fail('to_numpy returns shape %s dtype %s' % (b.shape, b.dtype))
    if not np.array_equal(a, b):
        i = np.argwhere(a != b)[0]
        fail('entry %s is %r, not %r' % (tuple(int(x) for x in i), float(b[tuple(i)]), float(a[tuple(i)])))
    del c
    h.to_numpy(getattr(h, f)(np.full(a.shape if a.shape[0] else (1, 1), 7.)))
    if not np.array_equal(a, b):
        fail('the array returned by to_numpy changed after its source was destroyed')
    b[...] = 3.
    if b.size and not b.flags.owndata and b.base is not None and not isinstance(b.base, np.ndarray):
        fail('to_numpy returns a view of foreign memory')


def rejected(f, a, label):
    if a.ndim == 2 and a.strides[1] == 8:
        return
    begin('%s(%s)' % (f, label))
    try:
        getattr(h, f)(a)
    except Exception:
        return
    fail('accepted although it is not a matrix with contiguous columns')


def g_convert():
    rnd = random.Random(A.seed)
    mx = 7 if A.level == 0 else 24
    shapes = [(n, m) for n in range(1, mx) for m in range(1, mx)]
    shapes += [(1, 300), (300, 1), (70, 3), (3, 70), (40, 41), (130, 2)]
    for n, m in shapes:
        base = np.arange(n * m, dtype=float).reshape(n, m) + .5
        big = np.arange((2 * n + 3) * (m + 5), dtype=float).reshape(2 * n + 3, m + 5) + .25
        vals = np.array([[rnd.choice([0., -1.5, 1e-300, 1e300, 3.]) for _ in range(m)] for _ in range(n)])
        for f in CONV:
            accepted(f, base, 'C-contiguous %dx%d' % (n, m))
            accepted(f, vals, 'special values %dx%d' % (n, m))
            if n > 1:
                accepted(f, base[::-1], 'reversed rows %dx%d' % (n, m))
            o = rnd.randint(0, 4)
            accepted(f, big[1:n + 1, o:o + m], 'slice with row stride %d of %dx%d' % (m + 5, n, m))
            if n > 1:
                accepted(f, big[1:2 * n:2, o:o + m], 'every second row, %dx%d' % (n, m))
                accepted(f, big[2 * n:0:-2, o:o + m], 'every second row reversed, %dx%d' % (n, m))
                if n * m < 3000:
                    accepted(f, np.broadcast_to(np.arange(m) + .5, (n, m)), 'broadcast row %dx%d' % (n, m))
            if m > 1:
                rejected(f, np.asfortranarray(base), 'Fortran order %dx%d' % (n, m))
                rejected(f, base[:, ::-1], 'reversed columns %dx%d' % (n, m))
                rejected(f, np.repeat(base, 2, axis=1)[:, ::2], 'every second column %dx%d' % (n, m))
                rejected(f, np.broadcast_to(np.arange(n)[:, None] + .5, (n, m)), 'broadcast column %dx%d' % (n, m))
    for f in CONV:
        for s in ((), (3,), (1,), (2, 3, 4), (1, 1, 1), (2, 2, 2, 2), (2, 1, 1)):
            rejected(f, np.ones(s), 'shape %s' % (s,))
        big = np.arange(600 * 500, dtype=float).reshape(600, 500)
        accepted(f, big, '600x500')
        accepted(f, big[100:400, 7:300], 'slice of 600x500')


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pygroups.py')).read())


def main():
    globals()['g_' + A.group]()
    for s in SAMPLES:
        say('SAMPLE ' + s)
    say('DONE %d %d' % (N, NT))
    os._exit(0)


TMP = tempfile.mkdtemp(prefix='vf-py-')
pid = os.fork()
if pid:
    signal.signal(signal.SIGTERM, lambda *a: (os.kill(pid, 9), shutil.rmtree(TMP, True), os._exit(4)))
    st = os.waitpid(pid, 0)[1]
    shutil.rmtree(TMP, True)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) != signal.SIGKILL:
            say('FAIL %s :: the library dies of signal %d' % (SHM[4:4 + int.from_bytes(SHM[:4], 'little')].decode(), os.WTERMSIG(st)))
        os._exit(1)
    os._exit(os.WEXITSTATUS(st))
try:
    main()
except Exception as e:
    import traceback
    traceback.print_exc()
    if CASE:
        fail('raises %r' % e)
    say('ERROR %r' % e)
    os._exit(3)
