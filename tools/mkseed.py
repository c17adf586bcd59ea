#!/usr/bin/env python3
"""Write seeded/<id>/ from the specifications in tools/seeds/*.txt (development aid, not used by any check).

    == S01 | C01
    needs: ...
    breaks: ...
    @@ genex/File.cpp
    <<<
    old
    ===
    new
    >>>
    %% demo.cpp
    ...
    %% (or: %% demo.sh for a complete script)
"""
import glob
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SH = '''#!/bin/bash
# Exit 0: the behaviour described in meta.json is intact; anything else: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -O1 -flto -pthread %s -I"$PWD/genex" "$here/demo.cpp" -o "$tmp/demo" \\
  "$PWD/_build/genex/libgenexLib.a" -lboost_serialization -lboost_iostreams || exit 3
cd "$tmp" && timeout 120 ./demo
'''


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/seeds/*.txt')):
        lines = open(f).read().split('\n')
        k, cur, path = 0, None, None
        while k < len(lines):
            l = lines[k]
            if l.startswith('== '):
                a = [x.strip() for x in l[3:].split('|')]
                cur = {'id': a[0], 'property': a[1], 'edits': [], 'files': {}, 'flags': a[2] if len(a) > 2 else ''}
                out.append(cur)
            elif l.startswith('needs:'):
                cur['needs'] = l[6:].strip()
            elif l.startswith('breaks:'):
                cur['breaks'] = l[7:].strip()
            elif l.startswith('@@ '):
                path = l[3:].strip()
            elif l.startswith('<<<'):
                a, b = [], []
                k += 1
                while lines[k] != '===':
                    a.append(lines[k]); k += 1
                k += 1
                while lines[k] != '>>>':
                    b.append(lines[k]); k += 1
                cur['edits'].append((path, '\n'.join(a), '\n'.join(b)))
            elif l.startswith('%% '):
                n = l[3:].strip()
                t = []
                k += 1
                while lines[k] != '%%':
                    t.append(lines[k]); k += 1
                cur['files'][n] = '\n'.join(t) + '\n'
            k += 1
    return out


def main():
    want = sys.argv[1:]
    for s in load():
        if want and s['id'] not in want:
            continue
        if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
            sys.exit('/repo is not clean')
        try:
            for path, a, b in s['edits']:
                p = '/repo/' + path
                t = open(p).read()
                if t.count(a) != 1:
                    sys.exit('%s: %d matches in %s for\n%s' % (s['id'], t.count(a), path, a))
                open(p, 'w').write(t.replace(a, b))
            d = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        o = '%s/seeded/%s' % (VERIF, s['id'])
        if os.path.isdir(o):
            shutil.rmtree(o)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        for n, t in s['files'].items():
            open(o + '/' + n, 'w').write(t)
        if 'demo.sh' not in s['files']:
            open(o + '/demo.sh', 'w').write(SH % s['flags'])
        os.chmod(o + '/demo.sh', 0o755)
        print('wrote', s['id'])


main()
