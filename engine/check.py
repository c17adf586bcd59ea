#!/usr/bin/env python3
"""Run the static check of one property:  check.py <ID>"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from gx import build, core  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    evdir = os.environ.get('GX_EVIDENCE') or os.path.join(build.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    ctx = core.Ctx(pid, tier, seed)
    status = 0
    err = mod = None
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        mod.run(ctx)
        if ctx.oblig == 0:
            raise core.AnalysisBroken('no construct was analysed')
    except (core.AnalysisBroken, build.BuildError) as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    known = [(k, t) for p, k, t in core.load_known() if p == pid]
    kk = {k for k, _ in known}
    new = [v for v in ctx.viol if v['key'] not in kk]
    old = [v for v in ctx.viol if v['key'] in kk]
    replay = os.path.join(evdir, pid + '.violations.json')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (getattr(mod, '__doc__', None) or 'none').strip(),
            'rule': getattr(mod, 'RULE', ''),
            'obligations': ctx.oblig,
            'discharged': ctx.disch,
            'analysed': ctx.counts,
            'known_findings': len(old),
            'tree': build.tree_hash(),
            'samples': ctx.samples[:40],
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 3),
        'violations': len(new),
    }
    if err:
        ev['coverage']['error'] = err[-2000:]
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, v['where'], v['message']))
    print('%s: %d obligations over %s, %d discharged, %d known, %d new violations (%.1f s)' % (
        pid, ctx.oblig, ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), ctx.disch, len(old), len(new),
        time.time() - ctx.t0))
    if new:
        with open(replay, 'w') as f:
            json.dump({'property': pid, 'violations': new}, f, indent=1)
        for v in new:
            print('  violated: %s: %s  [%s]' % (v['where'], v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        status = 1
        if err:
            print('note: the analysis also reported: ' + err)
    elif err:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, err))
        status = 2
    if os.path.exists(replay) and not new:
        os.unlink(replay)
    try:
        build.prune()
    except OSError:
        pass
    return status


if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.exit(code)
