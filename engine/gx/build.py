"""Compile the current /repo sources to LLVM IR and flatten them for analysis.

Results are cached under /verif/build keyed by the content of every source file,
so each run analyses exactly the tree it finds.
"""
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get('GX_BUILD') or os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18/bin'
GXIR_SRC = os.path.join(HERE, 'gxir.cpp')
STD = '-std=c++11'


class BuildError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def gxir():
    """path of the flattener, built on demand"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'gxir-' + _sha([GXIR_SRC])[:12])
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, 'lock-gxir'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cfg = lambda *a: subprocess.check_output([LLVM + '/llvm-config'] + list(a), text=True).split()
        flags = [x for x in cfg('--cxxflags') if x not in ('-fno-exceptions',)]
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [LLVM + '/clang++', '-std=c++17', '-O1', '-fno-rtti', GXIR_SRC, '-o', tmp] + flags + \
            ['-fexceptions', '-std=c++17'] + cfg('--ldflags', '--libs', '--system-libs')
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('cannot build gxir:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def sources():
    lib = sorted(glob.glob(REPO + '/genex/**/*.cpp', recursive=True))
    cli = sorted(glob.glob(REPO + '/cli/**/*.cpp', recursive=True))
    py = sorted(glob.glob(REPO + '/pygenex/**/*.cpp', recursive=True))
    if not lib:
        raise BuildError('no library sources found under %s/genex' % REPO)
    return lib, cli, py


def tree_files():
    res = []
    for d in ('genex', 'cli', 'pygenex'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.h', '.cc', '.hh', '.inl', '.ipp', '.txx')):
                    res.append(os.path.join(root, f))
    return res


def tree_hash():
    return _sha(tree_files())


def _pyinc():
    c = sorted(glob.glob('/usr/include/python3.*'))
    return c[-1] if c else '/usr/include/python3.12'


def bitcode(part):
    """linked bitcode: part 'lib' (library + command line tool) or 'py' (python module + library)"""
    h = tree_hash()
    d = os.path.join(BUILD, 'ir-' + h)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, part + '.bc')
    if os.path.exists(out):
        return out, d
    with open(os.path.join(d, 'lock-' + part), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out, d
        lib, cli, py = sources()
        srcs = lib + (cli if part == 'lib' else py)
        base = [LLVM + '/clang++', STD, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-pthread', '-w',
                '-fno-discard-value-names', '-I' + REPO, '-I' + REPO + '/genex', '-I' + REPO + '/cli', '-I' + _pyinc(),
                '-emit-llvm', '-c']
        objs = []

        def one(s):
            o = os.path.join(d, part + '-' + s.replace('/', '_') + '.o.bc')
            r = subprocess.run(base + [s, '-o', o], capture_output=True, text=True)
            return s, o, r
        with ThreadPoolExecutor(8) as ex:
            for s, o, r in ex.map(one, srcs):
                if r.returncode:
                    raise BuildError('cannot compile %s:\n%s' % (s, r.stderr[-3000:]))
                objs.append(o)
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([LLVM + '/llvm-link', '-o', tmp] + objs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('cannot link bitcode:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
        for o in objs:
            os.unlink(o)
    return out, d


def accepts(code):
    """does the compiler accept this text together with the headers of the tree?"""
    r = subprocess.run([LLVM + '/clang++', STD, '-fsyntax-only', '-w', '-I' + REPO, '-I' + REPO + '/genex', '-I' + REPO + '/cli', '-x', 'c++', '-'],
                       input=code, capture_output=True, text=True)
    return r.returncode == 0


INLINE_STD = [r' std::swap<(bool|int|long|unsigned long|double|float|[\w:]+\*)>\(', r'^std::pair<.*>::(pair|~pair|operator=|swap)(<|\()', ' std::make_pair<', '^std::(__cxx11::)?basic_string<[^()]*>::empty']


def dump(plan_lines, part='lib'):
    """flattened program for a plan (list of directive lines) -> parsed JSON"""
    bc, d = bitcode(part)
    tool = gxir()
    lines = ['prefix\t' + REPO.rstrip('/') + '/', 'index'] + list(plan_lines)
    text = '\n'.join(lines) + '\n'
    key = hashlib.sha256((text + tool).encode()).hexdigest()[:16]
    out = os.path.join(d, part + '-' + key + '.json')
    if not os.path.exists(out):
        with open(os.path.join(d, 'lock-' + key), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out):
                plan = os.path.join(d, key + '.plan')
                with open(plan, 'w') as f:
                    f.write(text)
                tmp = out + '.tmp%d' % os.getpid()
                r = subprocess.run([tool, bc, plan, tmp], capture_output=True, text=True)
                if r.returncode or r.stderr.strip():
                    raise BuildError('gxir failed: ' + r.stderr[-2000:])
                os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def prune(keep=6):
    """drop old cached trees"""
    ds = sorted(glob.glob(BUILD + '/ir-*'), key=os.path.getmtime)
    for d in ds[:-keep]:
        for f in glob.glob(d + '/*'):
            try:
                os.unlink(f)
            except OSError:
                pass
        try:
            os.rmdir(d)
        except OSError:
            pass


if __name__ == '__main__':
    print(gxir())
    bitcode('lib')
