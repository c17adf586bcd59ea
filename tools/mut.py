#!/usr/bin/env python3
"""Try the checks on edited copies of the sources (development aid, not used by any check).

Each file tools/mutants/*.txt holds blocks:
    == name | C01 C02 | bad        (or: good = behaviour kept, checks must stay quiet)
    @@ genex/File.cpp
    <<<
    old text
    ===
    new text
    >>>
Usage: mut.py [options] [name-or-property substring ...]     -p C01,C02: these checks instead of the listed ones,
-g: only the behaviour-preserving edits, -n7: every seventh, -v: print all output
"""
import glob
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SCR = '/tmp/gxmut'


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/mutants/*.txt')):
        cur = None
        lines = open(f).read().split('\n')
        k = 0
        path = None
        while k < len(lines):
            l = lines[k]
            if l.startswith('== '):
                n, ps, kind = [x.strip() for x in l[3:].split('|')]
                cur = {'name': n, 'props': ps.split(), 'kind': kind, 'edits': []}
                out.append(cur)
            elif l.startswith('@@ '):
                path = l[3:].strip()
            elif l == '<<<':
                a = []
                k += 1
                while lines[k] != '===':
                    a.append(lines[k])
                    k += 1
                b = []
                k += 1
                while lines[k] != '>>>':
                    b.append(lines[k])
                    k += 1
                cur['edits'].append((path, '\n'.join(a), '\n'.join(b)))
            k += 1
    return out


def run(m, props=None):
    d = os.path.join(SCR, re.sub(r'\W+', '_', m['name']))
    r = os.path.join(d, 'repo')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(r)
    for s in ('genex', 'cli', 'pygenex'):
        shutil.copytree('/repo/' + s, r + '/' + s)
    for path, a, b in m['edits']:
        p = os.path.join(r, path)
        t = open(p).read()
        if t.count(a) != 1:
            return m, [('edit', 'EDIT-FAILED %s: %d matches' % (path, t.count(a)))]
        open(p, 'w').write(t.replace(a, b))
    env = dict(os.environ, GX_REPO=r, GX_BUILD=d + '/build', GX_EVIDENCE=d + '/ev')
    os.makedirs(d + '/build')
    for g in glob.glob(VERIF + '/build/gxir-*'):
        os.symlink(g, d + '/build/' + os.path.basename(g))
    res = []
    for p in props or (['C%02d' % i for i in range(1, 35)] if m['props'] == ['ALL'] else m['props']):
        q = subprocess.run([sys.executable, VERIF + '/engine/check.py', p], capture_output=True, text=True, env=env)
        res.append((p, q.returncode, q.stdout + q.stderr))
    if not os.environ.get('KEEP'):
        shutil.rmtree(d)
    return m, res


def main():
    args = sys.argv[1:]
    props = [a[2:].split(',') for a in args if a.startswith('-p')]
    props = props[0] if props else None
    verbose = '-v' in args
    kind = 'good' if '-g' in args else None
    every = [int(a[2:]) for a in args if a.startswith('-n')]
    args = [a for a in args if not a.startswith('-')]
    ms = [m for m in load() if not args or any(a in m['name'] or a in m['props'] for a in args)]
    ms = [m for m in ms if kind is None or m['kind'] == kind]
    if every:
        ms = ms[::every[0]]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for m, res in ex.map(lambda m: run(m, props), ms):
            if res and res[0][0] == 'edit':
                print('%-50s %s' % (m['name'], res[0][1]))
                bad += 1
                continue
            want = 1 if m['kind'] == 'bad' else 0
            codes = [r[1] for r in res]
            good = any(c == 1 for c in codes) if want else all(c == 0 for c in codes)
            if not good:
                bad += 1
            show = [r for r in res if len(res) < 12 or r[1]]
            print('%-50s %-5s %s %s' % (m['name'], m['kind'], ' '.join('%s=%d' % (r[0], r[1]) for r in show),
                                        '' if good else '<<<<<< UNEXPECTED'))
            if verbose or not good:
                for r in show:
                    print('\n'.join('      ' + l[:300] for l in r[2].strip().split('\n')[-8:]))
    print('%d tried, %d unexpected' % (len(ms), bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
