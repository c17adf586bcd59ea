"""Exhaustive search examines every subsequence.

In the exhaustive search and its block-average variant the enclosing loops of
the distance computation are turned into their ranges.  The map from the loop
counters to (series, start, end) of the subsequence fetched must be invertible
over the integers, and the set of counters must equal, by mutual implication of
the inequalities, { 0 <= series < number of series, 0 <= start,
start + 2 <= end <= length of the series }.  No iteration may leave the loops
early or go round without the distance being computed.  On every path round the
innermost loop the candidate is either put in (at most once) or dropped, and it
is dropped only when k candidates are held and its distance is not below that
of the first one held, which must be the largest (heap typestate: the
collection is made a heap when it becomes full and stays one; only the element
moved to the end by the heap operation is removed).
"""
from gx import api
from gx.kbest import *
from gx.loops import ranges, iter_skips, loops_of
from checks import c12

RULE = 'loop-range set equality with the set of all subsequences; drop conditions per path; heap typestate'


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inverse3(m, d):
    c = [[0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a = [[m[x][y] for y in range(3) if y != j] for x in range(3) if x != i]
            c[j][i] = (-1) ** (i + j) * (a[0][0] * a[1][1] - a[0][1] * a[1][0]) * d
    return c


def enumerated(ctx, nm, col, st):
    s, fn = col.s, col.fn
    fetch = [i for i in fn.instrs() if s.info.get(i.id, {}).get('call') is not None
             and s.info[i.id]['call'].short == SET + '::getTimeSeries']
    ctx.require(fetch, '%s fetches no subsequence' % nm)
    dist = [i for i in fn.instrs() if is_dist_call(s, i)]
    ctx.require(dist, '%s computes no distance' % nm)
    for i in fetch:
        w = i.where
        c = s.info[i.id]['call']
        hs = loops_of(fn, i.blk)
        rgs = []
        for h in hs:
            r = [x for x in ranges(s, h) if abs(x.step) == 1 and any(x.atom in subterms_of(p) for p in c.params)
                 and (x.rotated or fn.dominates(x.test, i.blk))]
            if len(r) == 1:
                rgs.append(r[0])
        if not ctx.expect(len(rgs) == 3 and len(hs) == 3, '%s-loops' % col.what, w,
                          'the subsequences are not enumerated by three counting loops'):
            continue
        for r in rgs:
            ctx.expect(not r.early, '%s-early' % col.what, w, 'the enumeration can stop before all subsequences were examined')
        ctx.count('loops', 3)
        # affine map counters -> (series, start, end)
        A = [r.atom for r in rgs]
        M, K = [], []
        for t in c.params:
            p = dict(poly(t))
            M.append([p.pop((a,), 0) for a in A])
            K.append(p.pop((), 0))
            if p:
                M = None
                break
        if not ctx.expect(M is not None and abs(det3(M)) == 1, '%s-map' % col.what, w,
                          'different counters do not stand for different subsequences'):
            continue
        base = c.this
        n = mk('ld', st.at(base, 'getItemCount'), 'i32', ())
        lens = st.at(base, 'getItemLength')
        idx, b, e = c.params
        L = mk('ld', mk('elem', lens, idx), 'i32', ())
        inside = []
        for r in rgs:
            inside.append(le0(padd(poly(r.lo), poly(r.atom), -1)))
            inside.append(le0(padd(padd(poly(r.atom), poly(r.hi), -1), {(): 1})))
        pr = Prover(s)
        # nothing outside
        ctx.expect(pr.ge0(idx, inside) and pr.lt(idx, n, inside) and pr.ge0(b, inside) and pr.le(e, L, inside)
                   and pr.le(add(b, const(2)), e, inside), '%s-outside' % col.what, w,
                   'a subsequence is asked for that does not exist or is shorter than two points')
        # nothing left out: invert the map and derive every loop bound from membership
        inv = inverse3(M, det3(M))
        F = [mk('any', x) for x in ('series', 'start', 'end')]
        sub = {}
        for k, a in enumerate(A):
            q = {}
            for j in range(3):
                q = padd(q, {(F[j],): inv[k][j], (): -inv[k][j] * K[j]})
            sub[a] = mkpoly(q)
        LF = mk('ld', mk('elem', lens, F[0]), 'i32', ())
        member = [le0({(F[0],): -1}), le0({(F[0],): 1, (n,): -1, (): 1}), le0({(F[1],): -1}),
                  le0({(F[1],): 1, (F[2],): -1, (): 2}), le0({(F[2],): 1, (LF,): -1})]
        # a series is never longer than the longest one
        for r in rgs:
            lo, hi, a = rewrite(r.lo, sub), rewrite(r.hi, sub), sub[r.atom]
            mx = mk('ld', st.at(base, 'getMaxLength'), 'i32', ())
            extra = [le0({(LF,): 1, (mx,): -1})]
            ctx.expect(pr.le(lo, a, member + extra) and pr.lt(a, hi, member + extra), '%s-left-out' % col.what, w,
                       'subsequences are left out: not every existing one satisfies %s <= %s < %s' % (lo, a, hi))
        inner = hs[-1]
        ctx.expect(not iter_skips(s, inner, dist), '%s-skipped' % col.what, w,
                   'a subsequence can be passed over without its distance being computed')
        for k, h in enumerate(hs[:-1]):
            ctx.expect(not skips_loop(s, h, hs[k + 1]), '%s-skipped' % col.what, w,
                       'a whole series or length can be passed over')


def subterms_of(t):
    return set(subterms(t))


def skips_loop(s, h, inner):
    """an iteration of loop h that does not enter the inner loop"""
    class B:
        blk = inner
    return iter_skips(s, h, [B])


def front_or_inf(col, b):
    """the distance of the first candidate held, or no bound at all"""
    if b.op == 'phi' and b in col.s.minc and not col.is_front(b):
        return all(v is INF or col.is_front(v) for v in col.s.minc[b].values())
    if b.op == 'sel':
        return all(v is INF or col.is_front(v) for v in b.args[1:])
    return col.is_front(b)


def at_heads(col, pr):
    """(content, facts) on every way into every loop"""
    s, fn = col.s, col.fn
    for h, c in col.heads.items():
        for p, v in s.minc[c].items():
            ent = [q for q in fn.blocks[h].preds if q not in fn.loops[h]]
            for pp in (ent if p == 'entry' else [p]):
                for (t,), fs in split(s, [v], edge(s, pp, h)):
                    fs = list(fs) + col.hyps
                    if not pr.absurd(fs):
                        yield t, fs


def kept(ctx, nm, col):
    s, fn = col.s, col.fn
    pr = Prover(s)
    calls = {s.vals[i.id]: i for i in fn.instrs() if is_dist_call(s, i)}
    inner = max(col.heads, key=lambda h: fn.rpo_no[h])
    head = col.heads[inner]
    # heap at every loop head; failing that, full -> heap
    col.always = True
    if not all(col.heap_ok(t, fs, pr) for t, fs in at_heads(col, pr)):
        col.always = False
    for t, fs in at_heads(col, pr):
        ok = col.heap_ok(t, fs, pr) or pr.lt(size_of(s, t), col.k, fs) or t in col.heads.values()
        ctx.expect(ok, '%s-heap' % col.what, fn.where,
                   'the collection can be full without having its largest candidate first')
    # what happens to a candidate on each path round the loop
    n = 0
    for p, v in s.minc[head].items():
        if p == 'entry':
            continue
        for (t,), fs in split(s, [v], edge(s, p, inner)):
            fl = list(fs) + col.hyps
            if pr.absurd(fl):
                continue
            n += 1
            pushes, pops, ok = 0, 0, True
            x = t
            while x is not head:
                if x.op == 'push':
                    pushes += 1
                elif x.op == 'pop':
                    pops += 1
                    ok = ok and x.args[0].op == 'perm' and x.args[0].args[1] == 'std::pop_heap' and \
                        col.heap_ok(x.args[0].args[0], fl, pr)
                elif x.op == 'vec':
                    ok = False
                elif col.replaced(x) is not None:
                    pushes, pops = pushes + 1, pops + 1
                    x = x.args[0]
                    ok = ok and col.heap_ok(x.args[0], fl, pr)
                x = col.prev(x)
                if x is None:
                    ok = False
                    break
            ctx.expect(ok, '%s-removal' % col.what, fn.where, 'a candidate other than the farthest one can be removed')
            ctx.expect(pushes <= 1, '%s-twice' % col.what, fn.where, 'the same candidate is put in twice')
            if pops:
                ctx.expect(pushes == pops and pr.le(col.k, mk('size', head), fl), '%s-removal' % col.what, fn.where,
                           'a candidate is removed although fewer than k are held')
            if pushes == 0:
                full = pr.le(col.k, mk('size', head), fl)
                worse = False
                for f in fs:
                    for d, i in calls.items():
                        b = s.info[i.id]['args'][2]
                        if f in nearer(d, b) and front_or_inf(col, b):
                            worse = True
                        for q in [y for y in (f.args[0] if f.op == 'not' else f).args if isinstance(y, T)] if f.op in ('fcmp', 'not') else []:
                            if col.is_front(q) and f in nearer(d, q):
                                worse = True
                ctx.expect(full and worse, '%s-dropped' % col.what, fn.where,
                           'a candidate is dropped although fewer than k candidates at least as near are held')
    ctx.require(n >= 2, 'too few paths round the search loop')
    ctx.count('paths round the search loop', n)
    # bounds given to the distance
    for d, i in calls.items():
        b = s.info[i.id]['args'][2]
        if b is INF:
            ctx.ok('unbounded distance')
            continue
        fs = list(s.facts(i.blk)) + col.hyps

        def largest(c, gs):
            return col.is_front(c) and col.heap_ok(head, gs, pr) and pr.le(col.k, mk('size', head), list(gs))
        ctx.expect(largest(b, fs) or all(c is INF or largest(c, gs) for (c,), gs in split(s, [b], fs)), '%s-bound' % col.what, i.where,
                   'the bound given to the distance is not the largest distance held by a full collection')


def not_(t):
    return c12.not_(t)


def run(ctx):
    st = set_roles(ctx)
    n = 0
    for nm, col in c12.collectors(ctx):
        if nm == c12.INTRA:
            continue
        n += 1
        ctx.require(col.heads, '%s does not collect candidates in a loop' % nm)
        if not col.invariant():
            ctx.bad('%s-size' % col.what, col.fn.where, 'it is not established how many candidates are held')
            continue
        enumerated(ctx, nm, col, st)
        kept(ctx, nm, col)
    ctx.require(n == 2, 'exhaustive searches not found')
    ctx.assume('a series is never longer than the longest length recorded for the dataset (established at load, see C05)')


def nearer(d, b):
    """conditions that say: b is at least as near as d (which of them holds without numbers is not looked at)"""
    return not_(fcmp('olt', d, b)), fcmp('ole', b, d)
