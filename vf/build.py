"""Compile /repo's C++ sources out of tree: the bounded harness (sanitised) and the Python module."""
import glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from clangast import REPO

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'cpp/src')
SAN = ['-std=c++14', '-O1', '-g1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + SRC]


class Built:
    ok, exe, libdir, err = False, None, None, ''


def _key(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


def _compile(args):
    src, obj, flags = args
    p = subprocess.run(['g++'] + flags + ['-c', src, '-o', obj], capture_output=True, text=True)
    return p.returncode, p.stderr


def build_cpp(scratch, groups):
    b = Built()
    libs = sorted(glob.glob(os.path.join(SRC, 'hermite/*.cpp')))
    har = os.path.join(ROOT, 'bounded/harness.cpp')
    heads = glob.glob(os.path.join(SRC, 'hermite/**/*.hpp'), recursive=True) + glob.glob(os.path.join(SRC, 'hermite/**/*.h'), recursive=True)
    cache = os.environ.get('VF_CACHE')
    key = _key(libs + heads + [har], ' '.join(SAN))
    if cache and os.path.exists(os.path.join(cache, key)):
        b.ok, b.exe = True, os.path.join(cache, key)
        return b
    od = os.path.join(scratch, 'obj')
    os.makedirs(od, exist_ok=True)
    jobs = [(har, os.path.join(od, 'harness.o'), SAN)] + [(s, os.path.join(od, os.path.basename(s)[:-4] + '.o'), SAN) for s in libs]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_compile, jobs))
    bad = [e for c, e in res if c]
    if bad:
        b.err = '\n'.join(bad)
        return b
    exe = os.path.join(scratch, 'harness')
    p = subprocess.run(['g++', '-fsanitize=address,undefined'] + [o for _, o, _ in jobs] + ['-ldl', '-o', exe], capture_output=True, text=True)
    if p.returncode:
        b.err = p.stderr
        return b
    shutil.rmtree(od)
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy2(exe, os.path.join(cache, key))
    b.ok, b.exe = True, exe
    return b


def build_py(scratch):
    """hermite_cpp extension module + the repository's Python package on the path"""
    b = Built()
    libs = sorted(glob.glob(os.path.join(SRC, 'hermite/*.cpp')) + glob.glob(os.path.join(SRC, 'hermite/python/*.cpp')))
    heads = glob.glob(os.path.join(SRC, 'hermite/**/*.hpp'), recursive=True)
    inc = subprocess.run(['/usr/bin/python3', '-c', 'import sysconfig;print(sysconfig.get_paths()["include"])'], capture_output=True, text=True).stdout.strip()
    fl = ['-std=c++14', '-O1', '-fPIC', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + SRC, '-I' + inc]
    cache = os.environ.get('VF_CACHE')
    key = _key(libs + heads, ' '.join(fl))
    if cache and os.path.exists(os.path.join(cache, key, 'hermite_cpp.so')):
        b.ok, b.libdir = True, os.path.join(cache, key)
        return b
    od = os.path.join(scratch, 'pyobj')
    os.makedirs(od, exist_ok=True)
    jobs = [(s, os.path.join(od, '%d.o' % i), fl) for i, s in enumerate(libs)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_compile, jobs))
    bad = [e for c, e in res if c]
    if bad:
        b.err = '\n'.join(bad)
        return b
    ld = os.path.join(scratch, 'pylib')
    os.makedirs(ld, exist_ok=True)
    p = subprocess.run(['g++', '-shared'] + [o for _, o, _ in jobs] + ['-lboost_python312', '-lboost_numpy312', '-ldl', '-o', os.path.join(ld, 'hermite_cpp.so')], capture_output=True, text=True)
    if p.returncode:
        b.err = p.stderr
        return b
    shutil.rmtree(od)
    if cache:
        os.makedirs(os.path.join(cache, key), exist_ok=True)
        shutil.copy2(os.path.join(ld, 'hermite_cpp.so'), os.path.join(cache, key))
    b.ok, b.libdir = True, ld
    return b
